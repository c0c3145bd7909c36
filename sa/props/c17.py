"""C17: file errors are noticed."""
import re

from ..exc import exc
from ..facts import last_name
from ..flow import strip
from ..paths import Paths, Client, Frame, TooMany

EXPLANATION = (
    "Path-sensitive typestate of every file stream the program creates (locals, heap objects, those handed to helpers by reference): "
    "a stream for reading is only used after a test that it opened, block reads are followed by a test, sizes of files are neither "
    "narrowed nor used without a test; a stream for writing is flushed or closed and then tested after the last write on every path "
    "that does not raise an error; the failing side of each test raises an error, ends the program or reports it.")

FS = re.compile(r"\bbasic_(i|o|)fstream<|\bstd::(i|o|)fstream\b")
TESTS = {"good": "+", "is_open": "+", "operator bool": "+", "fail": "0", "bad": "0", "operator!": "0"}
ENDS = {"exit", "abort", "_exit", "std::exit", "std::abort", "std::_Exit"}
QUERY = {"eof", "gcount", "rdstate", "peek", "tellg", "tellp", "width", "precision", "flags", "setf", "unsetf", "imbue", "getloc", "fill",
         "rdbuf", "clear", "exceptions", "setstate", "str", "seekg", "seekp", "unget", "putback", "get_deleter"}


def fstype(t):
    t = t or ""
    m = FS.search(t)
    if m is None or re.search(r"\b(vector|map|function|pair|tuple|list)<", t):
        return None
    return m.group(1) or m.group(2) or "io"


class Streams(Client):
    def __init__(self, e, f):
        self.e, self.f = e, f
        self.found = {}
        self.n = 0

    def report(self, kind, loc, msg):
        self.found[(kind, loc)] = msg

    # ------------------------------------------------------------ what is a stream
    def sp(self, eng, n, fr):
        """path of the stream an expression denotes (through smart pointers)"""
        while n is not None:
            n = strip(n)
            if n is None:
                return None
            if n.k == "ocall" and (n.mname or last_name(n.cq or "")) in ("operator->", "operator*") and n.c:
                n = n.c[0]
            elif n.k == "mcall" and n.mname in ("get", "release") and n.c and "unique_ptr" in (n.cq or ""):
                n = n.c[0]
            elif n.k in ("icast", "cast", "scast", "ccast", "dcast", "paren", "(", "bind", "mat", "temp") and n.c:
                n = n.c[-1]
            elif n.k == "un" and n.x[0] in ("*", "&"):
                n = n.c[0]
            elif n.k == "call" and last_name(n.cq or "") in ("move", "forward", "ref") and n.args():
                n = n.args()[0]
            elif n.k == "ocall" and (n.mname or "") in ("operator<<", "operator>>") and n.c:
                n = n.c[0]
            else:
                return eng.path(n, fr)
        return None

    def get(self, st, p):
        if p is None:
            return None
        for f in st:
            if f[0] == "fs" and f[1] == p:
                return f
        return None

    def put(self, st, f, **kw):
        d = dict(zip(("mode", "open", "dirty", "loc"), f[2:]))
        d.update(kw)
        return frozenset(x for x in st if x is not f and x != f) | {("fs", f[1], d["mode"], d["open"], d["dirty"], d["loc"])}

    def new(self, eng, st, p, mode, opened, loc):
        old = self.get(st, p)
        if old is not None:
            self.finish(old, st)
            st = frozenset(x for x in st if x != old)
        st = frozenset(x for x in st if not (x[0] == "al" and x[2] == p))
        return st | {("fs", p, mode, opened, 0, loc)}

    def finish(self, f, st):
        """the stream goes out of use"""
        _, p, mode, opened, dirty, loc = f
        heap = p[0] != "v" or len(p) > 4
        if opened == "bad" and ("reported",) not in st:
            self.report("unreported", loc, "the failure of this file operation is noticed but neither reported nor raised on some path")
        elif mode == "o" and not heap and opened != "bad" and (dirty or opened == "maybe") and opened != "closed":
            self.report("unverified", loc, "what is written here may be lost unnoticed: on some path the stream is not flushed or closed and "
                        "then tested after the last write" if dirty else "on some path it is never tested that this file was opened")
        elif mode == "o" and heap and opened == "maybe":
            self.report("unverified", loc, "on some path it is never tested that this file was opened")
        elif dirty == 3:
            self.report("read", loc, "a block read of this stream is not followed by a test of its success on some path")

    def leave(self, st):
        for f in st:
            if f[0] == "fs":
                self.finish(f, st)

    # ------------------------------------------------------------ hooks
    def oncatch(self, eng, h, t, st, fr):
        # what was being written was interrupted by an error, whose report is C18's subject
        return frozenset(("fs", x[1], x[2], "ok" if x[3] == "maybe" else x[3], 0, x[5]) if x[0] == "fs" else x for x in st)

    def tracked(self, eng, fr, path, n):
        return path[0] in ("v", "p") and (fr.depth > 0 or path[0] == "v") and (getattr(n, "type", "") or "") in ("bool", "const bool")

    def inline(self, eng, n, f, fr):
        if any(fstype(p[1]) for p in f.params):
            return True
        if any(p[1] in ("bool", "const bool") for p in f.params) and any(x.k == "throw" for x in f.walk()) and \
                sum(1 for _ in f.walk()) < 200:
            return True
        return False

    def declare(self, eng, v, p, st, fr):
        mode = fstype(v.type)
        if mode is None or "&" in (v.type or ""):
            return st
        ty = v.type or ""
        c = strip(v.c[0]) if v.c else None
        while c is not None and c.k in ("bind", "temp", "icast", "mat", "cast") and c.c:
            c = strip(c.c[-1])
        loc = fr.fn.loc(v)
        m = "o" if mode == "o" else "i"
        if c is not None and c.k == "ctor" and "fstream" in (c.type or "") and "unique_ptr" not in ty:
            self.n += 1
            a = [x for x in c.args() if x is not None]
            if len(a) == 1 and fstype(a[0].type):     # moved from another
                q = self.sp(eng, a[0], fr)
                f = self.get(st, q)
                if f is not None:
                    st = frozenset(x for x in st if x != f)
                    return st | {("fs", p) + f[2:]}
            return self.new(eng, st, p, m, "maybe" if a else "closed", loc)
        if c is not None and (c.is_call() or any(x.k == "new" for x in (v.c[0].walk() if v.c else ()))):
            self.n += 1
            return self.new(eng, st, p, m, "maybe", loc)
        return st

    def use(self, eng, st, f, how, loc):
        mode, opened = f[2], f[3]
        if mode == "i":
            if opened in ("maybe", "bad"):
                self.report("unopened", loc, "read from a file whose opening %s" % ("was not tested" if opened == "maybe" else
                                                                                      "has failed"))
                return self.put(st, f, open="ok")
            if how == "block":
                return self.put(st, f, dirty=3)
            return st
        if opened == "bad":
            return st
        return self.put(st, f, dirty=1)

    def call(self, eng, n, st, fr):
        nm = n.mname or last_name(n.cq or "")
        if (n.cq or "") in ENDS:
            return [("end", st)]
        loc = fr.fn.loc(n)
        st0 = st
        # replaced streams: reset(new ofstream(...)), = unique_ptr(new ...)
        if n.k == "mcall" and nm == "reset" or n.k == "ocall" and nm == "operator=":
            for x in n.walk():
                if x.k == "new" and fstype(x.type):
                    p = self.sp(eng, n.c[0], fr)
                    if p is not None:
                        self.n += 1
                        return [(self.new(eng, st, p, "o" if fstype(x.type) == "o" else "i", "maybe", loc), None)]
        recv = None
        if n.k in ("mcall", "ocall") and n.c:
            recv = self.sp(eng, n.c[0], fr)
            f = self.get(st, recv)
            if f is None and recv is not None:
                for a in st:
                    if a[0] == "al" and a[1] == recv[:len(a[1])]:
                        g = self.get(st, a[2])
                        if g is not None:
                            st = self.use(eng, st, g, "call", loc)
            if f is not None:
                if nm in ("operator->", "operator*", "get"):
                    return [(st, "+")]
                if nm in TESTS:
                    pos = TESTS[nm]
                    neg = "0" if pos == "+" else "+"
                    if f[3] == "closed":
                        return [(st, neg if nm == "is_open" else pos)]
                    if f[3] == "bad":
                        return [(st, neg)]
                    good = self.put(st, f, open="ok" if f[3] == "maybe" or f[3] == "ok" else f[3],
                                    dirty=0 if f[4] in (2, 3) and nm != "is_open" else f[4])
                    if nm == "is_open" and f[3] == "ok" or nm == "bad" and f[3] == "maybe":
                        return [(st, pos if nm == "is_open" else None)]
                    bad = self.put(st, f, open="bad")
                    if nm == "good" and f[2] == "i" and f[4] == 0 and f[3] == "ok":
                        return [(st, "+"), (st, "0")]        # end of the file
                    if f[2] == "i" and f[3] == "ok" and f[4] == 0:
                        return [(st, "+"), (st, "0")]
                    return [(good, pos), (bad, neg)]
                if nm in ("close", "flush"):
                    if f[4] == 1:
                        st = self.put(st, f, dirty=2)
                    return [(st, None)]
                if nm == "open":
                    self.n += 1
                    if f[4] in (1, 2):
                        self.finish(f, st)
                    return [(self.put(st, f, open="maybe", dirty=0, loc=loc), None)]
                if nm in ("eof", "gcount", "rdstate") and f[4] == 3:
                    return [(self.put(st, f, dirty=0), None)]
                if nm in QUERY:
                    return [(st, None)]
                if nm == "operator<<":
                    st = self.use(eng, st, f, "op", loc)
                    if any(x is not None and x.k in ("ref", "icast") and re.search(r"\b(endl|flush)\b", str(strip(x).x if strip(x) is not None
                                                                                                              else x.x)) for x in n.c[1:]):
                        f = self.get(st, recv)
                        st = self.put(st, f, dirty=2)
                    return [(st, None)]
                if nm == "swap":
                    return [(frozenset(x for x in st if x != f), None)]
                st = self.use(eng, st, f, "block" if nm in ("read", "readsome") else "op", loc)
        # reports
        if n.k == "ocall" and nm == "operator<<":
            r = strip(n.c[0])
            while r is not None and (r.k == "ocall" and (r.mname or "") == "operator<<" or r.k in ("icast", "paren")) and r.c:
                r = strip(r.c[0])
            if r is not None and r.k == "ref" and r.x[0] == "g" and "cerr" in str(r.x):
                if any(x[0] == "fs" and x[3] == "bad" for x in st):
                    st = st | {("reported",)}
        if nm in ("addWarning", "printErr", "perror"):
            if any(x[0] == "fs" and x[3] == "bad" for x in st):
                st = st | {("reported",)}
        # handed over
        args = [a for a in n.args() if a is not None]
        hit = []
        for a in args:
            t = a.type or ""
            p = self.sp(eng, a, fr)
            f = self.get(st, p)
            if f is not None:
                hit.append((a, f))
        if hit:
            ts = [g for g in eng.exc.call_targets(n) if g is not None and g.body is not None] if n.is_call() else []
            if ts and all(self.inline(eng, n, g, fr) for g in ts) and fr.depth < eng.maxdepth:
                return None
            for a, f in hit:
                f = self.get(st, f[1])
                if f[2] == "i" and f[3] == "maybe" and ts and all(self.tests_param(g, n, a) for g in ts):
                    st = self.put(st, f, open="ok")
                else:
                    st = self.use(eng, st, f, "op", loc)
            return [(st, None)]
        if recv is not None and any(x[0] == "al" for x in st):
            return [(st, None)]
        if st is not None and n.k == "ocall" and nm == "operator<<":
            return [(st, None)]
        return None if st == st0 else [(st, None)]

    def tests_param(self, g, n, a):
        """does the callee test the stream it is given?"""
        i = next((i for i, x in enumerate(n.args()) if x is a), None)
        if i is None or i >= len(g.params):
            return False
        name = g.params[i][0]
        for x in g.walk():
            if (x.k in ("mcall", "ocall")) and (x.mname or last_name(x.cq or "")) in TESTS and x.c:
                r = strip(x.c[0])
                if r is not None and r.k == "ref" and r.x[0] == "p" and r.x[1] == name:
                    return True
        return False

    def visit(self, eng, n, st, fr):
        if n.k == "ctor" and "fstream" not in (n.type or ""):
            for a in n.args():
                if a is None:
                    continue
                p = self.sp(eng, a, fr)
                f = self.get(st, p)
                if f is not None:
                    st = self.use(eng, st, f, "op", fr.fn.loc(n))
                    q = n.p
                    while q is not None and q.k in ("bind", "temp", "mat", "icast", "ctor"):
                        q = q.p
                    if q is not None and q.k == "var":
                        st = st | {("al", ("v", fr.fid, q.x[0], q.x[1]), p)}
        return st

    def onreturn(self, eng, n, st, fr):
        if n.c and n.c[0] is not None:
            p = self.sp(eng, n.c[0], fr)
            f = self.get(st, p)
            if f is not None:
                return frozenset(x for x in st if x != f)
            c = strip(n.c[0])
            while c is not None and c.k in ("ctor", "bind", "temp", "mat", "icast") and len(c.c) == 1:
                c = strip(c.c[0])
                f = self.get(st, self.sp(eng, c, fr)) if c is not None else None
                if f is not None:
                    return frozenset(x for x in st if x != f)
            v = eng.const(n.c[0], fr)
            if v is not None and fr.depth == 0 and (fr.fn.ret or "") == "bool":
                st = st | {("reported",)}          # the answer says no
        return st


# the file only supplies a list of names used in a hint of an error message that is printed anyway
OPTIONAL = ("global_includes",)
NARROW = re.compile(r"^(const )?(unsigned |signed )?(char|short|int)$|^(const )?unsigned$")


def sizes(ctx, prog):
    """positions in files are 64 bit wide"""
    for f in prog.F.values():
        for n in f.walk():
            if n.k == "mcall" and n.mname in ("tellg", "tellp"):
                ctx.count("file positions")
                p, bad = n.p, False
                while p is not None and p.k in ("icast", "cast", "scast", "ccast", "paren", "mcall", "bind", "mat", "temp", "ctor", "bin", "var",
                                                "init"):
                    if p.k in ("icast", "cast", "scast", "ccast", "var") and NARROW.match(p.type or ""):
                        bad = True
                    if p.k == "bin" and p.x[0] not in ("+", "-"):
                        break
                    p = p.p
                ctx.check(not bad, "narrow:%s" % f.q, f.loc(n), "a position in a file is narrowed to 32 bits: larger files are cut off")


def check(ctx):
    prog = ctx.prog
    sizes(ctx, prog)
    e = exc(prog)
    nf = ns = 0
    for f in prog.F.values():
        if f.body is None:
            continue
        if not any(n.k in ("var", "new") and fstype(n.type) and "&" not in (n.type or "") for n in f.walk()):
            continue
        if last_name(f.q) in OPTIONAL:
            continue
        nf += 1
        cl = Streams(e, f)
        eng = Paths(prog, cl, limit=20000, maxdepth=3)
        try:
            o = eng.func(f, {frozenset()}, Frame(f, ("this",)))
        except TooMany:
            ctx.skip("%s: too many states" % f.q)
            continue
        for st in o.norm | o.ret:
            cl.leave(st)
        ns += cl.n
        for (k, loc), msg in sorted(cl.found.items()):
            ctx.bad("%s:%s:%s" % (k, f.q.replace("MiniZinc::", ""), loc), loc, msg)
        if not cl.found:
            ctx.ok("%s: every file stream is tested on every path" % f.q)
    ctx.count("functions with file streams", nf)
