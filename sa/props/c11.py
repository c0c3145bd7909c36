"""C11: solver subprocesses are supervised to their end on every path."""
import re

from ..exc import exc, clean
from ..facts import AnalysisError
from ..flow import strip
from ..paths import Paths, Client, Frame, TooMany

EXPLANATION = (
    "Typestate analysis over every path (including exceptions and destructors) of the functions that create processes and pipes: each "
    "failable system call is split into its possible results; in the parent each pipe end must be closed once, the child waited for and "
    "each replaced signal handler restored on every way out; the child never returns to the caller; results of failed pipe, fork, read "
    "and select calls are not used, reads fit their buffer, and text handed on is terminated within it.")

PRIMS = {"pipe", "pipe2", "fork", "vfork", "sigaction"}
RESULTS = {"pipe": "-0", "pipe2": "-0", "fork": "-0+", "vfork": "-0+", "read": "-0+", "select": "-0+", "poll": "-0+", "waitpid": "-+",
           "wait": "-+", "execvp": "-", "execv": "-", "execve": "-", "execlp": "-", "execl": "-", "dup": "-+", "dup2": "-+",
           "pselect": "-0+", "write": "-0+"}
NOINLINE = {"_exit", "exit", "abort", "_Exit", "quick_exit", "terminate"}


def callee_name(n):
    return (n.cq or "").split("::")[-1] if n.k == "call" else None


class Sup(Client):
    def __init__(self, ctx, scope):
        self.ctx, self.scope = ctx, scope
        self.viol = {}
        self.inlined = set()
        self.sites = set()
        self.exits = 0

    def report(self, n, kind, msg, fr):
        self.viol.setdefault((kind, n.loc if hasattr(n, "loc") and not callable(n.loc) else fr.fn.loc(n)), msg)

    def tracked(self, eng, fr, path, n):
        # what signal handlers or other threads may change is not known
        return path[0] != "g"

    def inline(self, eng, n, f, fr):
        ok = f.key in self.scope or f.islambda and any(c.key in self.scope for c in [fr.fn])
        if ok:
            self.inlined.add(f.key)
        return ok

    def dtor(self, eng, var, cls):
        fs = [f for f in eng.prog.F.values() if f.cls == cls and "::~" in f.q and f.body is not None and f.key in self.scope]
        return fs[0] if fs else None

    # ------------------------------------------------------------------ effects
    def call(self, eng, n, st, fr):
        nm = callee_name(n)
        if nm is None:
            return None
        a = n.args()
        if nm in NOINLINE:
            return [("end", st)]
        bad = None
        for x in a:
            t = eng.tok(x, st, fr)
            if t is not None and t[0] == "bad" and nm not in ("strerror",):
                bad = t
        if bad is not None:
            self.report(n, "failed-%s-used" % bad[1], "the result of a failed %s call is used as an argument of %s" % (bad[1], nm), fr)
        if nm in RESULTS or nm in ("close", "sigaction", "kill", "killpg"):
            self.sites.add((fr.fn.loc(n), nm))
        if nm in ("pipe", "pipe2"):
            p = eng.path(a[0], fr)
            if p is None:
                self.ctx.skip("%s: the array given to %s" % (fr.fn.loc(n), nm))
                return [(st, None)]
            r = []
            good = bad = st
            for i in (0, 1):
                t = ("fd", p, i)
                q = p + (("i", i),)
                good = eng.puttok(eng.put(good, q, None), q, t) | {("live", t, fr.fn.loc(n))}
                bad = eng.puttok(bad, q, ("bad", nm))
            return [(good, "0"), (bad, "-")]
        if nm == "close":
            t = eng.tok(a[0], st, fr)
            if t is None:
                # some descriptor, not known which: assume the best
                return [(eng.drop(st, lambda f: f[0] == "live" and f[1][0] == "fd"), None)]
            if t[0] == "fd":
                live = [f for f in st if f[0] == "live" and f[1] == t]
                if not live and ("inchild",) not in st and ("closed", t) in st:
                    self.report(n, "closed-twice", "a pipe end is closed a second time, when the descriptor may be in use for something "
                                                   "else", fr)
                return [(eng.drop(st, lambda f: f[0] == "live" and f[1] == t) | {("closed", t)}, None)]
            return [(st, None)]
        if nm in ("fork", "vfork"):
            t = ("child",)
            node = ("node", n.id, fr.fid)
            return [(eng.puttok(st | {("live", t, fr.fn.loc(n))}, node, t), "+"), (st | {("inchild",)}, "0"),
                    (eng.puttok(st, node, ("bad", nm)), "-")]
        if nm in ("waitpid", "wait", "waitid", "wait4"):
            t = eng.tok(a[0], st, fr) if nm in ("waitpid", "wait4") else None
            hang = nm in ("waitpid", "wait4") and len(a) > 2 and eng.value(a[2], st, fr) != "0"
            if (t is None or t == ("child",) or t == ("const", -1)):
                done = eng.drop(st, lambda f: f[0] == "live" and f[1] == ("child",))
                if hang:
                    return [(st, "-"), (st, "0"), (done, "+")]
                return [(done, "-"), (done, "+")]
            return [(st, "-"), (st, "+")]
        if nm == "sigaction" and len(a) == 3:
            s = eng.tok(a[0], st, fr)
            new, old = strip(a[1]), strip(a[2])
            isnull = lambda e: e is None or eng.value(e, st, fr) == "0"
            sig = ("sig", s)
            if not isnull(new):
                src = eng.path(new, fr)
                t = eng.gettok(st, src) if src is not None else None
                if t is not None and t[0] == "saved":
                    if t[1] == s:
                        st = eng.drop(st, lambda f: f[0] == "live" and f[1] == sig)
                    else:
                        self.report(n, "wrong-signal", "the handler saved for another signal is installed", fr)
                elif not isnull(old):
                    p = eng.path(old, fr)
                    if p is not None:
                        if not any(f[0] == "live" and f[1] == sig for f in st):
                            st = eng.puttok(st, p, ("saved", s)) | {("live", sig, fr.fn.loc(n))}
                        else:
                            st = eng.puttok(st, p, None)
            return [(st, None)]
        if nm in ("select", "pselect"):
            sets = [eng.path(x, fr) for x in a[1:4]]
            sets = [p for p in sets if p is not None]
            st = eng.drop(st, lambda f: f[0] == "stale")
            return [(st, "0"), (st, "+"), (st | {("stale", p) for p in sets}, "-")]
        if nm == "read":
            node = ("node", n.id, fr.fid)
            self.size(eng, n, a, fr)
            b = eng.path(a[1], fr)
            t = ("read", fr.fn.loc(n))
            s2 = eng.drop(st, lambda f: f[0] == "text")
            got = eng.puttok(s2 | ({("text", b)} if b is not None else set()), node, t)
            return [(eng.puttok(s2, node, ("bad", "read")), "-"), (eng.puttok(s2, node, t), "0"), (got, "+")]
        if nm in RESULTS:
            return [(st, c) for c in RESULTS[nm]]
        return None

    def array_size(self, e, fr):
        e = strip(e)
        while e is not None and e.k in ("icast", "cast") and e.c:
            e = strip(e.c[-1])
        m = re.search(r"\[(\d+)\]$", (e.type or "") if e is not None else "")
        return int(m.group(1)) if m else None

    def number(self, eng, e, fr):
        """value of a size expression"""
        e = strip(e)
        while e is not None and e.k in ("icast", "cast", "scast", "paren", "(") and e.c:
            e = strip(e.c[-1])
        if e is None:
            return None
        if e.k == "sizeof":
            for x in e.x:
                if isinstance(x, int) and x > 1:
                    return x
            return None
        if e.k == "bin" and e.x[0] in ("-", "+", "*"):
            a, b = self.number(eng, e.c[0], fr), self.number(eng, e.c[1], fr)
            return None if a is None or b is None else {"+": a + b, "-": a - b, "*": a * b}[e.x[0]]
        if e.k == "ref" and e.x[0] == "v":
            d = fr.decl(e.x[2])
            if d is not None and d.c and "const" in (d.type or ""):
                return self.number(eng, d.c[0], fr)
        return eng.const(e, fr)

    def size(self, eng, n, a, fr):
        sz = self.array_size(a[1], fr)
        want = self.number(eng, a[2], fr)
        if sz is None or want is None:
            return
        if want > sz or want < 0:
            self.report(n, "overrun", "read may store %d bytes in a buffer of %d" % (want, sz), fr)
        self.limits[fr.fn.loc(n)] = want

    limits = {}

    def visit(self, eng, n, st, fr):
        k = n.k
        if k == "idx":
            t = eng.tok(n.c[1], st, fr)
            if t is not None and t[0] == "bad" and t[1] == "read":
                self.report(n, "failed-read-used", "the result of a failed read is used as an index", fr)
            elif t is not None and t[0] == "read":
                sz = self.array_size(n.c[0], fr)
                lim = self.limits.get(t[1])
                if sz is not None and lim is not None and lim >= sz:
                    self.report(n, "overrun", "the number of bytes read may be %d, past the end of a buffer of %d" % (lim, sz), fr)
            if n.p is not None and n.p.k == "idx" and n.p.c[0] is n:
                return st
        elif k == "bin" and n.x[0] == "=":
            l = strip(n.c[0])
            if l.k == "idx":
                b = eng.path(l.c[0], fr)
                t = eng.tok(l.c[1], st, fr)
                if b is not None and ("text", b) in st and eng.value(n.c[1], st, fr) == "0" and t is not None and t[0] == "read":
                    st = st - {("text", b)}
                if b is not None and any(x in ("fds_bits", "__fds_bits") for x in b):
                    st = eng.drop(st, lambda f: f[0] == "stale" and f[1] == b[:len(f[1])])
        elif k == "mem" and n.x[0] in ("fds_bits", "__fds_bits"):
            p = eng.path(n.c[0], fr)
            if p is not None and ("stale", p) in st and not self.written(n):
                self.report(n, "stale-set", "descriptor set examined although select failed, when its content is unspecified", fr)
        elif (k == "call" or k == "mcall" or k == "ocall" or k == "ctor") and any(f[0] == "text" for f in st):
            args = n.args() if n.is_call() else n.c
            if callee_name(n) not in RESULTS and len([x for x in args if x is not None and x.k != "darg"]) in (1, 2):
                sized = any(t is not None and t[0] in ("read", "bad") for t in [eng.tok(x, st, fr) for x in args if x is not None])
                for x in args:
                    if x is None:
                        continue
                    p = eng.path(x, fr)
                    if p is not None and ("text", p) in st and not sized and strip(x).k in ("ref", "mem", "un", "icast"):
                        self.report(n, "unterminated", "the bytes read are used as text without a terminator after them", fr)
        return st

    @staticmethod
    def written(n):
        p, c = n.p, n
        while p is not None and p.k in ("idx", "paren", "(", "icast"):
            if p.k == "idx" and p.c[0] is not c:
                return False
            c, p = p, p.p
        if p is not None and p.k == "bin" and p.x[0].endswith("=") and p.x[0] not in ("==", "!=", "<=", ">=") and p.c[0] is c:
            return True
        return p is not None and p.k == "un" and p.x[0] == "&"


def eng_loc(fr, n):
    return fr.fn.loc(n)


NAMES = {"fd": "pipe end", "child": "child process", "sig": "signal handler"}
VERB = {"fd": "closed", "child": "waited for", "sig": "restored"}


def visible(t, fr_fid):
    """caller can reach it: pipe array given by the caller or a field"""
    if t[0] == "fd":
        p = t[1]
        return p[0] in ("p", "this", "g") or p[0] == "v" and p[1] != fr_fid
    return False


def check(ctx):
    prog = ctx.prog
    direct = {}
    scope = set()
    for f in prog.F.values():
        if f.body is None:
            continue
        for c in f.calls():
            nm = callee_name(c)
            if nm in PRIMS or nm in RESULTS and nm not in ("write",):
                direct.setdefault(f.key, set()).add(nm)
            if nm in ("close", "kill", "killpg") or nm in NOINLINE:
                scope.add(f.key)
    owners = {k for k, s in direct.items() if s & {"fork", "vfork", "pipe", "pipe2"}}
    if not owners:
        raise AnalysisError("no function creates a process")
    scope |= set(direct)
    # helpers of the owners that reach a primitive
    reach = prog.can_reach(scope) if hasattr(prog, "can_reach") else scope
    base = set()
    for k in owners:
        base.add(prog.F[k].cls)
    files = {prog.F[k].file for k in owners}
    scope |= {k for k in reach if prog.F[k].file in files}
    # small members of the classes defined beside them (guards)
    for f in prog.F.values():
        if f.body is not None and f.file in files and f.cls and len(list(f.walk())) < 400 and f.key not in owners:
            scope.add(f.key)
    done = set()
    queue = sorted(owners)
    inl = set()
    nroot = 0
    lifted = set()
    while queue:
        k = queue.pop(0)
        if k in done or k in inl and k not in lifted:
            continue
        done.add(k)
        f = prog.F[k]
        cl = Sup(ctx, scope - {k})
        eng = Paths(prog, cl, limit=6000)
        fr = Frame(f, ("this",), {}, None, 0, ())
        try:
            o = eng.func(f, {frozenset()}, fr)
        except TooMany:
            ctx.skip("%s: too many states" % f.q)
            continue
        nroot += 1
        inl |= cl.inlined
        ctx.count("supervising functions")
        ctx.count("system call sites", len(cl.sites))
        normal = [(s, "returns", None) for s in o.norm | o.ret]
        thrown = [(s, "throws", t) for t, ss in o.thr.items() for s in ss]
        ctx.count("paths out", len(normal) + len(thrown))
        # does the caller take over?
        cal = [prog.F[c] for c in prog.callers.get(k, ()) if c in prog.F]
        passing = [t for s, h, ty in normal for x in s if x[0] == "live" for t in [x[1]]
                   if visible(t, ()) or eng.gettok(s, ("ret", ())) == t]
        if passing and cal:
            scope.add(k)
            lifted |= {c.key for c in cal}
            queue.extend(sorted(c.key for c in cal))
            continue
        found = set()
        for s, how, ty in normal + thrown:
            if ("inchild",) in s:
                if how == "returns" and ("childret", k) not in found:
                    found.add(("childret", k))
                    ctx.bad("child-returns:%s" % short(f), f.loc(), "the child process may return to the caller of %s" % f.q)
                continue
            for x in s:
                if x[0] != "live":
                    continue
                t = x[1]
                kk = (t[0], x[2], how, ty)
                if kk in found:
                    continue
                found.add(kk)
                ctx.bad("%s:%s:%s" % (t[0], short(f), "exception" if how == "throws" else "return"), x[2],
                        "%s taken here is not %s when %s %s%s" % (NAMES[t[0]], VERB[t[0]], f.q, how, " " + ty if ty else ""))
        for (kind, loc), msg in sorted(cl.viol.items()):
            ctx.bad("%s:%s" % (kind, short(f)), loc, msg)
            found.add(kind)
        if not found:
            ctx.ok("%s: %d system call sites, %d states at its exits, all released" % (f.q, len(cl.sites), len(normal) + len(thrown)),
                   n=max(1, len(cl.sites)))
    if not nroot:
        raise AnalysisError("nothing analysed")


def short(f):
    return re.sub(r"<[^<>]*>", "", f.q).replace("MiniZinc::", "")
