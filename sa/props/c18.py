"""C18: every failure ends in a reported error and a failing exit status."""
import re

from ..exc import exc, clean
from ..facts import AnalysisError, last_name
from ..flow import strip
from ..paths import Paths, Client, Frame, TooMany

EXPLANATION = (
    "Interprocedural exception analysis: the types leaving every function; nothing leaves main, destructors or thread functions; every "
    "handler of errors (also partial ones, found by running every path through it) rethrows, ends the driver with a failing status, "
    "stores the error or reports it and fails; no handler is shadowed by an earlier one; no thrown type is outside std::exception; "
    "statuses of solving and exit codes of solver processes are used; the driver's exit value after each caught error is non-zero on "
    "every path and something was printed; library code never ends the process.")

N = "MiniZinc::"
CONTROL = {N + "ResultUndefinedError", N + "ModelInconsistent"}
URGENT = {N + "SignalRaised", N + "Timeout"}
ENDS = {"exit", "abort", "_exit", "_Exit", "quick_exit", "std::exit", "std::abort", "std::terminate", "std::quick_exit", "std::_Exit",
        "__assert_fail"}
DRIVER_FNS = ("main", "wmain")


def callee(n):
    return n.cq or ""


def short(f):
    return re.sub(r"<[^<>]*>", "", f.q).replace(N, "")


def signal_only(prog):
    """functions only run as signal handlers: referenced where a handler is installed, and what only they call"""
    roots = set()
    for f in prog.F.values():
        if f.body is None:
            continue
        for n in f.nodes if isinstance(f.nodes, list) else f.walk():
            if n.k == "bin" and n.x[0] == "=" and n.c[0] is not None:
                l = strip(n.c[0])
                if l is not None and l.k == "mem" and l.x[0] in ("sa_handler", "sa_sigaction"):
                    for r in n.c[1].walk():
                        if r.k == "ref" and r.x[0] == "f":
                            nm = str(r.x[2]).split("(")[0].strip().split(" ")[-1]
                            roots |= {g.key for g in prog.F.values() if g.q == nm}
    out = set(roots)
    ch = True
    while ch:
        ch = False
        for k in list(out):
            for g in prog.F[k].callees if k in prog.F else ():
                kk = g if isinstance(g, str) else g.key
                if kk in prog.F and kk not in out and set(prog.callers.get(kk, ())) <= out:
                    out.add(kk)
                    ch = True
    return out


class Handler(Client):
    """one handler: what it did with the error on each path"""
    def __init__(self, h):
        self.h = h
        self.var = h.x[2] if len(h.x) > 2 else None

    def uses(self, n):
        for r in n.walk():
            if r.k == "ref" and r.x[0] == "v" and len(r.x) > 2 and r.x[2] == self.var and r.x[1] == self.h.x[1]:
                return True
        return False

    def tracked(self, eng, fr, path, n):
        return True

    def call(self, eng, n, st, fr):
        q = callee(n)
        nm = last_name(q)
        if q in ENDS:
            return [("end", st | {("end",)})]
        if nm == "current_exception":
            return [(st | {("save",)}, None)]
        if n.k == "ocall" and nm.startswith("operator<<") and "ostream" in (n.type or ""):
            w = any(x.k == "str" and re.search(r"[Ww]arning", str(x.x[0])) for x in n.walk())
            st = st | {("emit",)} | ({("warn",)} if w else set())
            return [(st, None)]
        if n.k == "mcall" and n.c and self.uses(n.c[0]) and nm in ("print", "json"):
            return [(st | {("emit",)}, None)]
        if nm in ("addWarning", "emplace_back", "push_back", "push_front", "emplace", "insert"):
            if any(a is not None and self.uses(a) for a in n.args()):
                return [(st | {("save",)}, None)]
        return [(st, None)]

    def visit(self, eng, n, st, fr):
        if n.k == "bin" and n.x[0].endswith("=") and n.x[0] not in ("==", "!=", "<=", ">=") and self.uses(n.c[1]):
            return st | {("save",)}
        if n.k == "bin" and n.x[0] == "=" and n.c[1] is not None and eng.value(n.c[1], st, fr) in ("+", "-"):
            l = strip(n.c[0])
            if l is not None and l.k in ("ref", "mem") and re.search("[sS]tatus|[eE]rr|[fF]ail", str(l.x)):
                return st | {("save",)}
        if n.k == "ocall" and last_name(callee(n)) in ("operator=", "operator+=") and any(self.uses(c) for c in n.c[1:] if c is not None):
            return st | {("save",)}
        return st

    def onreturn(self, eng, n, st, fr):
        if n.c and n.c[0] is not None:
            v = strip(n.c[0])
            if v is not None and (self.uses(n.c[0]) or any(r.k == "ref" and r.x[0] == "e" and "ERR" in str(r.x[1]).upper()
                                                           for r in n.c[0].walk())):
                return st | {("save",)}
        return st


def dispositions(prog, f, h):
    cl = Handler(h)
    eng = Paths(prog, cl, limit=2000)
    fr = Frame(f, ("this",), {}, None, 0, ())
    from ..paths import Out
    o = Out()
    eng._hin = {h.id: {"error"}}
    r = eng.stmts(h.c, {frozenset()}, fr, o)
    r.side(o)
    res = set()
    for s in r.norm | r.ret | r.brk | r.cont:
        if ("save",) in s:
            res.add("saved")
        elif ("emit",) in s:
            res.add("warned" if ("warn",) in s else "printed")
        else:
            res.add("silent")
    if r.end:
        res.add("ends")
    if r.thr:
        res.add("throws")
    return res


def on_the_way(e, tr, t):
    """the functions through which errors of type t come into a try body: one set per raising construct"""
    out = []
    for n in e.body(tr).walk():
        if n.k == "throw" or n.is_call() or n.k in ("ctor", "new"):
            for u, g in e.raised(n).items():
                if u == t:
                    names = [callee(n)]
                    if g in e.prog.F:
                        names += [e.prog.F[g].q] + list(e.path(g, t))
                    out.append(names)
    return out


def raisers(e, tr, wanted):
    """functions of the program called in a try body from which the wanted types come"""
    out = set()
    for n in e.body(tr).walk():
        if n.k == "throw" or n.is_call() or n.k in ("ctor", "new"):
            for t, g in e.raised(n).items():
                if t in wanted:
                    out.add((t, e.prog.F[g].q if g in e.prog.F else callee(n)))
    return out


# what may be asked and answered with an error that means "no": types, functions on the way of the error, why
QUERIES = [
    ({N + "TypeError"}, r"Model::matchFn|TopoSorter::|FunctionI::rtype", "no declaration matches"),
    ({N + "PluginError", N + "Error", "XpressException"}, r"Plugin|MIP\w*Wrapper::(MIP\w*Wrapper|checkDLL|openCPLEX|openXpress\w*)$|MIP\w*Wrapper$",
     "an optional solver library is not installed"),
    ({N + "EvalError"}, r"", "a value shown for information could not be computed"),
    ({N + "ArithmeticError"}, r"^$|operator|strtointval|safe|IntVal|FloatVal", "a literal that does not fit is answered through the result (C22)"),
]
QUERY_FN = {2: r"PlainPrinter", 3: r"strtointval"}      # where the function holding the handler matters
# reported by printing alone: the functions tried
SHOWN = [
    ({N + "MznSolver::run"}, "the solution checker's errors are its verdict"),
    ({"printSolution"}, "an error while an intermediate solution is shown; the call comes from solver code that cannot pass it on"),
]
GENERATED = re.compile(r"(lexer\.yy|parser\.tab)\.(cpp|hh|h)$")


class Driver(Client):
    def __init__(self, ctx, scope):
        self.ctx, self.scope = ctx, scope
        self.bad = {}

    def tracked(self, eng, fr, path, n):
        return path[0] != "g"

    def inline(self, eng, n, f, fr):
        return f.key in self.scope

    def oncatch(self, eng, h, t, st, fr):
        return eng.drop(st, lambda f: f[0] in ("caught", "shown")) | {("caught", t, fr.fn.loc(h))}

    def call(self, eng, n, st, fr):
        q, nm = callee(n), last_name(callee(n))
        c = next((f for f in st if f[0] == "caught"), None)
        if q in ENDS:
            if c is not None:
                a = n.args()
                v = eng.value(a[0], st, fr) if a else "+"
                if v == "0":
                    self.bad[("status", c[2])] = "after %s the process exits with status 0" % c[1]
                elif ("shown",) not in st:
                    self.bad[("unreported", c[2])] = "%s is not reported before the process exits" % c[1]
            return [("end", st)]
        if c is not None:
            if n.k == "ocall" and nm.startswith("operator<<") and "ostream" in (n.type or "") or nm in ("print", "json", "raise"):
                return [(st | {("shown",)}, None)]
        return None


PROC_RUN = re.compile(r"Process<.*>::run$")


class Failing(Client):
    """a solver process has ended with a non-zero exit code"""
    def __init__(self, scope):
        self.scope = scope

    def tracked(self, eng, fr, path, n):
        return path[0] != "g"

    def inline(self, eng, n, f, fr):
        return f.key in self.scope

    def call(self, eng, n, st, fr):
        if PROC_RUN.search(callee(n)):
            g = eng.drop(st, lambda f: f[0] == "failed")
            return [(g | {("failed", fr.fn.loc(n))}, "+"), (g | {("failed", fr.fn.loc(n))}, "-"), (g, "0")]
        return None


def process_failures(ctx, prog):
    """functions that answer with a status after running a process answer ERROR when the process failed"""
    holders = {f.key for f in prog.F.values() if f.body is not None and any(n.is_call() and PROC_RUN.search(callee(n)) for n in f.walk())}
    def status(f):
        return (f.ret or "").endswith("Status") and "Option" not in (f.ret or "")
    roots, scope = set(), set(holders)
    work = list(holders)
    while work:
        k = work.pop()
        f = prog.F[k]
        if status(f):
            roots.add(k)
            continue
        for c in prog.callers.get(k, ()):
            if c in prog.F and c not in scope and prog.F[c].file == f.file:
                scope.add(c)
                work.append(c)
    n = 0
    for k in sorted(roots):
        f = prog.F[k]
        cl = Failing(scope)
        eng = Paths(prog, cl, limit=4000, maxdepth=5)
        try:
            o = eng.func(f, {frozenset()}, Frame(f))
        except TooMany:
            ctx.skip("%s: too many states" % f.q)
            continue
        err = [int(v) for q, en in prog.E.items() if last_name(q) == "Status" for nm, v in en["vals"] if last_name(nm) == "ERROR"]
        bad = set()
        for st in o.norm | o.ret:
            fl = next((x for x in st if x[0] == "failed"), None)
            if fl is None:
                continue
            n += 1
            t = eng.gettok(st, ("ret", ()))
            if not (t is not None and t[0] == "const" and t[1] in err):
                bad.add(fl[1])
        for loc in sorted(bad):
            ctx.bad("process-failure:%s" % short(f), loc, "when this process fails, %s may answer something else than ERROR" % f.q)
        if not bad:
            ctx.ok("%s answers ERROR whenever its process failed" % f.q)
    ctx.count("failing process paths", n)


class Collected(Client):
    """locals into which callees put the errors they find"""
    def __init__(self, e, vs):
        self.e, self.vs = e, vs        # (name, uid) -> holder?

    def base(self, n):
        while n is not None:
            n = strip(n)
            if n is None:
                return None
            if n.k == "ref" and n.x[0] == "v":
                k = (n.x[1], n.x[2])
                return k if k in self.vs else None
            if n.k in ("icast", "cast", "scast", "ccast", "paren", "(", "mem") and n.c or n.k == "un" and n.x[0] in ("&", "*"):
                n = n.c[-1] if n.k != "mem" else n.c[0]
                continue
            return None
        return None

    def set(self, eng, st, k, what, loc):
        st = eng.drop(st, lambda f: f[0] == "errs" and f[1] == k)
        return st | {("errs", k, what, loc)} if what else st

    def call(self, eng, n, st, fr):
        nm = n.mname or last_name(callee(n))
        if callee(n) in ENDS:
            return [("end", st)]
        if n.k == "mcall" and n.c:
            k = self.base(n.c[0])
            if k is not None:
                f = next((f for f in st if f[0] == "errs" and f[1] == k), None)
                if nm in ("empty", "size"):
                    if f is None:
                        return [(st, "+" if nm == "empty" else "0")]
                    some = self.set(eng, st, k, "some", f[3])
                    none = self.set(eng, st, k, None, f[3])
                    if f[2] == "some":
                        return [(some, "0" if nm == "empty" else "+")]
                    return [(none, "+" if nm == "empty" else "0"), (some, "0" if nm == "empty" else "+")]
                if nm in ("push_back", "emplace_back", "insert"):
                    return [(self.set(eng, st, k, "some", fr.fn.loc(n)), None)]
        hit = []
        for a in n.args():
            k = self.base(a) if a is not None else None
            if k is not None:
                hit.append(k)
        if hit:
            if nm in ("insert", "swap", "move", "copy", "append") or nm in ("push_back", "emplace_back"):
                for k in hit:
                    st = self.set(eng, st, k, None, None)
            elif not n.type.startswith("std::basic_ostream"):
                for k in hit:
                    f = next((f for f in st if f[0] == "errs" and f[1] == k), None)
                    if f is None or f[2] != "some":
                        st = self.set(eng, st, k, "maybe", fr.fn.loc(n))
            return [(st, None)]
        return [(st, None)]

    def cond(self, eng, m, truth, st, fr):
        if m.k == "mem" and (m.type or "") == "bool":
            k = self.base(m)
            if k is not None:
                f = next((f for f in st if f[0] == "errs" and f[1] == k), None)
                if f is None or f[2] == "some":
                    return st
                return self.set(eng, st, k, "some" if truth else None, f[3])
        return st

    def onreturn(self, eng, n, st, fr):
        if n.c and n.c[0] is not None:
            for r in n.c[0].walk():
                k = self.base(r) if r.k == "ref" else None
                if k is not None and not (r.p is not None and r.p.k == "mcall"):
                    st = self.set(eng, st, k, None, None)
        return st


def collected_errors(ctx, prog, e):
    """errors collected by callees into a local are looked at and thrown before the function goes on to its end"""
    def isvec(t):
        m = re.match(r"^(?:const )?std::(?:vector|list|deque)<([\w:]+)(?:, .*)?>$", clean(t or ""))
        return m is not None and "std::exception" in e.supers(m.group(1))
    holders = {q for q, c in prog.C.items() if any("&" not in fl[1] and isvec(fl[1]) for fl in c.get("fields", ()))
               and "std::exception" not in e.supers(re.sub("<.*", "", q)) and not q.startswith(N + "MultipleErrors")}
    nl = 0
    for f in prog.F.values():
        if f.body is None:
            continue
        vs = {}
        for n in f.walk():
            if n.k == "var" and (isvec(n.type) or clean(n.type or "") in holders):
                vs[(n.x[0], n.x[1])] = n
        if not vs:
            continue
        eng = Paths(prog, Collected(e, vs), limit=20000)
        try:
            o = eng.func(f, {frozenset()}, Frame(f))
        except TooMany:
            ctx.skip("%s: too many states" % f.q)
            continue
        bad = {}
        for st in o.norm | o.ret:
            for x in st:
                if x[0] == "errs":
                    bad.setdefault(x[1], set()).add(x[3])
        for k, n in sorted(vs.items()):
            nl += 1
            if k in bad:
                loc = sorted(bad[k])[-1]
                ctx.bad("collected:%s:%s" % (short(f), k[0]), loc, "errors put into %s here are not looked at, or not thrown, on some path "
                        "to the end of %s" % (k[0], f.q))
            else:
                ctx.ok("%s: errors collected in %s are thrown" % (f.q, k[0]))
    ctx.count("error collections", nl)


def check(ctx):
    prog = ctx.prog
    process_failures(ctx, prog)
    collected_errors(ctx, prog, exc(prog))
    e = exc(prog)
    mains = [f for f in prog.F.values() if f.name in DRIVER_FNS and f.body is not None and "/" not in f.file]
    if not mains:
        raise AnalysisError("no entry point")
    dfiles = {f.file for f in mains}
    sig = signal_only(prog)
    # entry points
    for m in mains:
        out = e.out.get(m.key, {})
        if out:
            for t in sorted(out):
                ctx.bad("escape:%s:%s" % (m.file, t), m.loc(), "%s may leave %s: %s" % (t, m.q, "; ".join(e.path(m.key, t))[:400]))
        else:
            ctx.ok("%s (%s): no exception leaves it" % (m.q, m.file))
    # driver handlers
    dscope = {f.key for f in prog.F.values() if f.file in dfiles and f.body is not None}
    for m in mains:
        cl = Driver(ctx, dscope)
        eng = Paths(prog, cl, limit=4000, maxdepth=6)
        try:
            o = eng.func(m, {frozenset()}, Frame(m))
        except TooMany:
            ctx.skip("%s: too many states" % m.file)
            continue
        ncatch = 0
        for st in o.norm | o.ret:
            c = next((f for f in st if f[0] == "caught"), None)
            if c is None:
                continue
            ncatch += 1
            v = eng.get(st, ("ret", ()))
            if v != "+" and v != "-":
                cl.bad[("status", c[2])] = "after %s main may return 0" % c[1]
            elif ("shown",) not in st and c[1] != N + "SignalRaised":
                cl.bad[("unreported", c[2])] = "%s is not reported on some path" % c[1]
        for (k, loc), msg in sorted(cl.bad.items()):
            ctx.bad("driver-%s:%s" % (k, loc.split(":")[0]), loc, msg)
        if not cl.bad:
            ctx.ok("%s: failing exit status and report after every caught error (%d states)" % (m.file, ncatch), n=max(1, ncatch))
    # thrown types
    types = {}
    for f in prog.F.values():
        if f.body is None:
            continue
        for n in f.walk():
            if n.k == "throw" and n.x and n.x[0]:
                types.setdefault(clean(n.x[0]), []).append((f, n))
    for t, sites in sorted(types.items()):
        if "std::exception" in e.supers(t) or t == "std::exception":
            ctx.ok("thrown type %s (%d sites)" % (t, len(sites)), n=len(sites))
        else:
            for f, n in sites:
                ctx.bad("type:%s:%s" % (t, short(f)), f.loc(n), "%s is thrown, which no handler can report (not a std::exception)" % t)
    ctx.count("throw sites", sum(len(s) for s in types.values()))
    # destructors and threads
    nd = 0
    for f in prog.F.values():
        if f.body is None or not (f.name.startswith("~") or "::~" in f.q):
            continue
        nd += 1
        out = {t for t in e.out.get(f.key, {}) if t != N + "InternalError"}
        if out:
            t = sorted(out)[0]
            ctx.bad("destructor:%s" % short(f), f.loc(), "%s may leave the destructor and end the process: %s"
                    % (", ".join(sorted(out))[:200], "; ".join(e.path(f.key, t))[:400]))
        else:
            ctx.ok(n=1)
    ctx.count("destructors", nd)
    for f in prog.F.values():
        if f.body is None:
            continue
        for n in f.walk():
            q = callee(n)
            if (n.is_call() or n.k == "ctor") and re.match(r"^std::(thread|jthread|packaged_task<.*>|_?async.*)::", q):
                for a in n.walk():
                    if a.k == "lambda" and a.x[0] in e.out:
                        out = {t for t in e.out[a.x[0]] if t != N + "InternalError"}
                        ctx.check(not out, "thread:%s" % short(f), f.loc(n), "%s may leave a thread" % ", ".join(sorted(out)),
                                  "thread function")
    # handlers
    nh = 0
    seen = set()
    for f in prog.F.values():
        if f.body is None or f.key in dscope:
            continue
        for tr in f.walk():
            if tr.k != "try":
                continue
            hs = e.handlers(tr)
            # types the body raises
            body = {}
            for n in e.body(tr).walk():
                if n.k == "throw" or n.is_call() or n.k in ("ctor", "new"):
                    for t, g in e.raised(n).items():
                        body.setdefault(t, g)
            for i, h in enumerate(hs):
                ht = clean(h.x[0])
                if (f.file, f.loc(h)) in seen:
                    continue
                seen.add((f.file, f.loc(h)))
                nh += 1
                key = "%s:%s" % (short(f), ht)
                early = [g for g in hs[:i] if clean(g.x[0]) == "..." or clean(g.x[0]) in e.supers(ht)]
                if early and ht != "...":
                    ctx.bad("shadowed:%s" % key, f.loc(h), "handler can never run: an earlier one catches %s" % clean(early[0].x[0]))
                    continue
                reach = {t for t in body if e.caught(h.x[0], t) and not any(e.caught(g.x[0], t) for g in hs[:i])}
                # rethrowing a copy loses what a derived type says
                for n in h.walk():
                    if n.k == "throw" and n.x and n.x[0] and n.c:
                        v = strip(n.c[0])
                        while v is not None and v.k in ("ctor", "cast", "icast", "temp", "bind", "mat") and len(v.c) == 1:
                            v = strip(v.c[0])
                        if v is not None and v.k == "ref" and v.x[0] == "v" and v.x[1] == h.x[1] and v.x[2] == h.x[2]:
                            sub = sorted(t for t in reach if t != ht and ht in e.supers(t))
                            ctx.check(not sub, "sliced:%s" % key, f.loc(n),
                                      "rethrowing a copy as %s loses that it was %s" % (ht, ", ".join(sub)[:200]), "rethrown copy")
                std = {t for t in reach if t.startswith("std::") or t == "?"}
                err = reach - std - CONTROL
                if ht in ("...", "std::exception") and not err - {N + "InternalError"} and not reach & CONTROL:
                    ctx.ok(n=1)
                    continue
                if not err and ht not in (N + "Exception", N + "Error") or ht in CONTROL:
                    # undefinedness and inconsistency are results, not errors
                    if ht in CONTROL or not reach & CONTROL:
                        ctx.ok(n=1)
                        continue
                if not reach:
                    ctx.ok(n=1)
                    continue
                d = dispositions(prog, f, h)
                urgent = err & URGENT
                rs = raisers(e, tr, err)
                fine = d <= {"throws", "ends", "saved", "warned"}
                why = None
                if not fine:
                    for qi, (ts, rx, reason) in enumerate(QUERIES):
                        if err - {N + "InternalError"} <= ts and ht in ts and re.search(QUERY_FN.get(qi, ""), f.q) and \
                                all(any(re.search(rx, g) for g in names) for t in err & ts for names in on_the_way(e, tr, t)):
                            why = reason
                    if f.name.startswith("~") or "::~" in f.q:
                        why = "a destructor cannot pass it on"
                    for fns, reason in SHOWN:
                        if "silent" not in d and any(any(x in g for x in fns) for _, g in rs):
                            why = reason
                if fine or why:
                    if urgent and why is None and d & {"silent", "printed"}:
                        ctx.bad("urgent:%s" % key, f.loc(h), "%s does not get past this handler" % ", ".join(sorted(urgent)))
                    else:
                        ctx.ok("%s: %s -> %s%s" % (f.loc(h), ht, "/".join(sorted(d)), " (%s)" % why if why else ""))
                    continue
                if "silent" in d:
                    ctx.bad("swallowed:%s" % key, f.loc(h), "%s caught here is dropped without report on some path (raised by %s)"
                            % (", ".join(sorted(err))[:200], ", ".join(sorted({g for _, g in rs}))[:200]))
                else:
                    ctx.bad("printed:%s" % key, f.loc(h), "%s caught here is only printed; the run goes on as if it had succeeded (raised by "
                            "%s)" % (", ".join(sorted(err))[:200], ", ".join(sorted({g for _, g in rs}))[:200]))
    ctx.count("handlers", nh)
    # library code ending the process
    ne = 0
    for f in prog.F.values():
        if f.body is None or f.key in dscope or f.key in sig:
            continue
        for n in f.calls():
            if callee(n) in ENDS and callee(n) != "__assert_fail" and not GENERATED.search(f.file):
                ne += 1
                ctx.bad("ends:%s" % short(f), f.loc(n), "library code ends the process with %s" % callee(n))
    ctx.ok("process-ending calls outside entry points and signal handlers: %d" % ne)
    # dropped statuses
    ns = 0
    for f in prog.F.values():
        if f.body is None:
            continue
        for n in f.calls():
            ty = clean(n.type)
            st = ty.endswith("::Status") and "Solver" in ty
            pr = n.k == "mcall" and re.search(r"Process<.*>::run$", callee(n))
            if not (st or pr):
                continue
            ns += 1
            p = n.p
            dropped = p is not None and p.k in ("{", "if", "for", "while", "case", "default", "do", "rfor", "label", "try", "catch") and \
                not (p.k in ("if", "while") and n in p.c[:3] and p.k == "if" and p.c[2] is n)
            if p is not None and p.k in ("cast", "ccast") and (p.type or "") == "void":
                dropped = True
            if dropped:
                if any(x in callee(n) for fns, _ in SHOWN for x in fns):
                    ctx.ok(n=1)
                    continue
                ctx.bad("status:%s:%s" % (short(f), last_name(callee(n))), f.loc(n), "the status returned by %s is dropped" % callee(n))
            else:
                ctx.ok(n=1)
    ctx.count("status results", ns)
