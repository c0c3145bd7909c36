"""C29: temporary files and directories are removed."""
import re

from ..exc import exc
from ..facts import last_name
from ..flow import strip
from ..paths import Paths, Client, Frame, TooMany
from .c18 import signal_only

EXPLANATION = (
    "Ownership analysis: every call that creates a temporary file or directory is one that picks a unique name, sits in the constructor of a "
    "class whose destructor removes, on every path, the very name the constructor stored after the creation (directories with everything "
    "below them); its failure raises an error and nothing is raised after its success; every object of such a class is a local, a member "
    "or held by a smart pointer that is never released, is never copied, and no code below the functions that hold one ends the process; "
    "no further file is made from the name of a temporary file.")

CREATE = {"mkstemp", "mkstemps", "mkostemp", "mkostemps", "mkdtemp"}
UNSAFE = {"tmpnam", "tempnam", "mktemp", "tmpnam_r"}
REMOVE = {"remove", "unlink", "unlinkat", "rmdir", "nftw", "ftw", "remove_all"}
ENDS = {"exit", "abort", "_Exit", "quick_exit"}


def nm(n):
    return last_name(n.cq or "") or ""


def is_create(n):
    return n.k == "call" and nm(n) in CREATE


def field(n):
    """name of a field of this that an expression is, or reads"""
    for r in n.walk():
        if r.k == "mem" and r.c and strip(r.c[0]) is not None and strip(r.c[0]).k == "this":
            return r.x[0]
    return None


class Maker(Client):
    """constructor: the created name goes into the field, failure raises"""
    def __init__(self, prog, fields):
        self.prog, self.fields = prog, fields

    def tracked(self, eng, fr, path, n):
        return True

    def inline(self, eng, n, f, fr):
        return any(is_create(x) for x in f.walk())

    def call(self, eng, n, st, fr):
        if is_create(n):
            a = strip(n.args()[0]) if n.args() else None
            p = None
            for r in (a.walk() if a is not None else ()):
                if r.k == "ref":
                    p = eng.path(r, fr)
            ok = ("made", p, fr.fn.loc(n))
            if nm(n) == "mkdtemp":
                return [(st | {ok}, "+"), (st | {("failed",)}, "0")]
            return [(st | {ok}, "+"), (st | {ok}, "0"), (st | {("failed",)}, "-")]
        if nm(n) in ("operator=", "assign", "swap", "reset") and n.c and any(f[0] == "made" for f in st):
            return [(self.store(eng, n.c[0], n.c[1:], st, fr), None)]
        return None

    def store(self, eng, lhs, rhs, st, fr):
        l = strip(lhs)
        made = next((f for f in st if f[0] == "made"), None)
        if made is not None and l is not None and l.k == "mem" and l.x[0] in self.fields:
            for x in rhs:
                for r in (x.walk() if x is not None else ()):
                    if r.k in ("ref", "mem") and made[1] is not None and eng.path(r, fr) == made[1] or is_create(r):
                        return st | {("named",)}
            return frozenset(f for f in st if f != ("named",))
        return st

    def visit(self, eng, n, st, fr):
        if n.k == "bin" and n.x[0] == "=":
            return self.store(eng, n.c[0], n.c[1:], st, fr)
        return st


class Remover(Client):
    def __init__(self, prog, fields, state):
        self.prog, self.fields, self.state = prog, fields, state

    def tracked(self, eng, fr, path, n):
        return False

    def inline(self, eng, n, f, fr):
        return any(x.k == "call" and nm(x) in REMOVE for x in f.walk())

    def call(self, eng, n, st, fr):
        if n.k == "call" and nm(n) in REMOVE:
            return [(st | {("removed", nm(n))}, None)]
        return None

    def cond(self, eng, m, truth, st, fr):
        f = field(m)
        if f in self.state:
            return st | {("guarded",)}
        return st


def check(ctx):
    prog = ctx.prog
    e = exc(prog)
    owners = {}
    # creation
    nc = 0
    for f in prog.F.values():
        if f.body is None:
            continue
        for n in f.calls():
            if n.k == "call" and nm(n) in UNSAFE:
                ctx.bad("name:%s" % f.q, f.loc(n), "%s picks a name that another process may take" % nm(n))
            if is_create(n):
                nc += 1
                g = f
                # a helper of one constructor counts as the constructor
                seen = set()
                while not g.cls or g.name != last_name(g.cls):
                    cs = [c for c in prog.callers.get(g.key, ()) if c in prog.F and prog.F[c].body is not None]
                    if len(cs) != 1 or g.key in seen:
                        break
                    seen.add(g.key)
                    g = prog.F[cs[0]]
                if not g.cls or g.name != last_name(g.cls):
                    ctx.bad("owner:%s" % f.q, f.loc(n), "what %s creates is not owned by an object that removes it (it is not created in a "
                            "constructor)" % nm(n))
                    continue
                owners.setdefault(g.cls, []).append((g, f, n))
    ctx.count("creations", nc)
    kinds = {}
    for cls, sites in sorted(owners.items()):
        short = last_name(cls)
        isdir = any(nm(n) == "mkdtemp" for _, _, n in sites)
        kinds[cls] = isdir
        d = [f for f in prog.F.values() if f.cls == cls and f.name.startswith("~") and f.body is not None]
        if not d:
            ctx.bad("dtor:%s" % short, sites[0][0].loc(), "%s creates temporaries and has no destructor that removes them" % cls)
            continue
        d = d[0]
        # what the destructor removes
        fields = set()
        scope = [d] + [prog.F[c] for c in prog.reach([d]) if c in prog.F and prog.F[c].body is not None and c != d.key]
        for g in scope[:1]:
            for n in g.calls():
                if n.k == "call" and (nm(n) in REMOVE or any(x.k == "call" and nm(x) in REMOVE for t in e.call_targets(n) if t is not None and
                                                             t.body is not None for x in t.walk())):
                    for a in n.args():
                        x = field(a) if a is not None else None
                        if x:
                            fields.add(x)
        ctx.check(bool(fields), "dtor:%s" % short, d.loc(), "the destructor of %s does not remove what the constructor creates" % cls,
                  "%s removes %s" % (d.q, ", ".join(sorted(fields))))
        if not fields:
            continue
        state = set(fields)
        for ctor, _, _ in sites:
            for n in ctor.walk():
                if n.k == "bin" and n.x[0] == "=" and any(is_create(x) for x in n.c[1].walk()):
                    l = strip(n.c[0])
                    if l is not None and l.k == "mem":
                        state.add(l.x[0])
        cl = Remover(prog, fields, state)
        o = Paths(prog, cl).func(d, {frozenset()}, Frame(d, ("this",)))
        bad = [st for st in o.norm | o.ret if not any(x[0] == "removed" for x in st) and ("guarded",) not in st]
        ctx.check(not bad, "dtor-path:%s" % short, d.loc(), "the destructor of %s removes nothing on some path" % cls,
                  "%s removes on every path (%d)" % (d.q, len(o.norm | o.ret)))
        if isdir:
            rm = {x[1] for st in o.norm | o.ret for x in st if x[0] == "removed"}
            ctx.check(rm & {"rmdir", "remove", "remove_all", "nftw"}, "dtor-dir:%s" % short, d.loc(), "the directory itself is not removed")
            walk = False
            for g in scope:
                for n in g.calls():
                    if nm(n) in ("nftw", "ftw"):
                        walk = True
                        callback(ctx, prog, g, n)
                    elif nm(n) in ("remove_all",):
                        walk = True
                        ctx.ok("%s: everything below is removed" % g.loc(n))
                    elif nm(n) == "readdir":
                        walk = True
            ctx.check(walk, "dtor-below:%s" % short, d.loc(), "what is inside the directory is not removed")
        # constructor
        for ctor, f, n in sites:
            cl = Maker(prog, fields)
            eng = Paths(prog, cl)
            o = eng.func(ctor, {frozenset()}, Frame(ctor, ("this",)))
            bad = False
            for st in o.norm | o.ret:
                made = any(x[0] == "made" for x in st)
                if ("failed",) in st:
                    bad = True
                    ctx.bad("create-failed:%s" % short, f.loc(n), "the failure of %s is not noticed on some path" % nm(n))
                    break
                if made and ("named",) not in st:
                    bad = True
                    ctx.bad("create-name:%s" % short, f.loc(n), "the name %s has chosen is not stored where the destructor of %s looks for it"
                            % (nm(n), cls))
                    break
                if made and any(nm(x) == "operator=" and False for x in ()):
                    pass
            for t, sts in o.thr.items():
                if any(any(x[0] == "made" for x in st) for st in sts):
                    bad = True
                    ctx.bad("create-throw:%s" % short, f.loc(n), "%s is raised after %s succeeded: the destructor does not run" % (t, nm(n)))
            if not bad:
                ctx.ok("%s: stored on success, raised on failure" % ctor.q)
        # later writes of the field
        for g in prog.F.values():
            if g.cls == cls and g.body is not None and g.name != short and not g.name.startswith("~"):
                for n in g.walk():
                    l = strip(n.c[0]) if n.c and (n.k == "bin" and n.x[0].endswith("=") and n.x[0] not in ("==", "!=", "<=", ">=") or
                                                  n.k == "ocall" and nm(n) in ("operator=", "operator+=")) else None
                    if l is not None and l.k == "mem" and l.x[0] in fields:
                        ctx.bad("renamed:%s" % short, g.loc(n), "the name the destructor removes is changed after creation")
    # objects
    no = 0
    holders = set()
    sig = signal_only(prog)
    for f in prog.F.values():
        if f.body is None:
            continue
        for n in f.walk():
            cls = None
            if n.k in ("ctor", "new") and n.k == "ctor":
                c = n.x[2] if len(n.x) > 2 else None
                cls = re.sub(r"::[^:]*$", "", n.cq or "") if n.cq else None
            if n.k == "call" and last_name(n.cq or "").startswith(("make_unique", "make_shared")):
                m = re.search(r"(?:unique|shared)_ptr<([\w:]+)", n.type or "")
                if m and m.group(1) in owners:
                    no += 1
                    holders.add(f.key)
                    ctx.ok("%s: held by a smart pointer" % f.loc(n))
                continue
            if n.k == "mcall" and n.mname == "release" and n.c:
                m = re.search(r"unique_ptr<([\w:]+)", (n.c[0].type or "") + " " + (n.cq or ""))
                if m and m.group(1) in owners:
                    ctx.bad("released:%s" % f.q, f.loc(n), "the owner of a temporary gives it up")
            if cls not in owners:
                continue
            no += 1
            holders.add(f.key)
            sg = (n.x[0] or "")
            short = last_name(cls)
            if re.search(r"\((const )?%s ?&" % re.escape(cls), str(sg)):
                ctx.bad("copied:%s:%s" % (short, f.q), f.loc(n), "a copy of %s removes the file while the original is in use" % cls)
                continue
            p = n.p
            while p is not None and p.k in ("bind", "temp", "mat", "icast", "cast", "paren", "("):
                p = p.p
            if p is not None and p.k == "new":
                q = p.p
                while q is not None and q.k in ("bind", "temp", "mat", "icast", "cast", "paren", "(", "{}", "ilist"):
                    q = q.p
                held = q is not None and (q.k == "ctor" and re.search(r"(unique|shared)_ptr<", q.type or "") or
                                          q.k == "mcall" and q.mname in ("reset", "emplace_back", "emplace") and
                                          re.search(r"(unique|shared)_ptr<", (q.c[0].type or "") + (q.cq or "")) or
                                          q.k in ("var", "init") and re.search(r"(unique|shared)_ptr<", q.type or ""))
                ctx.check(held, "leak:%s:%s" % (short, f.q), f.loc(n), "a %s made with new is not handed to a smart pointer at once" % cls,
                          "%s: held by a smart pointer" % f.loc(n))
            elif p is not None and p.k == "var":
                static = len(p.x) > 2 and p.x[2]
                ctx.check(not static, "static:%s:%s" % (short, f.q), f.loc(n), "a static %s outlives errors that end the process" % cls,
                          "%s: local object" % f.loc(n))
            elif p is not None and p.k in ("init", "call", "mcall", "return"):
                ctx.ok("%s: member or temporary" % f.loc(n))
            else:
                ctx.skip("%s: unknown kind of owner" % f.loc(n))
    ctx.count("objects", no)
    ctx.need("objects", 1)
    # the process does not end below a holder
    for k in sorted(holders):
        f = prog.F[k]
        bad = None
        for g in prog.reach([f]):
            h = prog.F.get(g)
            if h is None or h.body is None or g in sig or re.search(r"\.yy\.|parser\.tab", h.file) or "/" not in h.file:
                continue
            for n in h.calls():
                if nm(n) in ENDS and n.k == "call":
                    bad = (h, n)
        ctx.check(bad is None, "ends:%s" % f.q, bad[0].loc(bad[1]) if bad else f.loc(), "the process may end here while %s holds a temporary"
                  % f.q, "nothing below %s ends the process" % f.q)
    # further files from the name of a temporary file
    for f in prog.F.values():
        if f.body is None:
            continue
        for n in f.walk():
            if n.k == "mcall" and n.mname == "name" and re.sub(r"::name$", "", n.cq or "") in owners and not kinds[re.sub(r"::name$", "", n.cq)]:
                p = n.p
                while p is not None and p.k in ("bind", "temp", "mat", "icast", "cast", "paren", "(", "ctor"):
                    p = p.p
                if p is not None and (p.k == "ocall" and nm(p) in ("operator+", "operator+=") or p.k == "mcall" and p.mname == "append"):
                    q = p
                    path = False
                    while q is not None and not path:
                        q = q.p
                        path = q is not None and q.k == "ctor" and "fstream" in (q.type or "")
                    ctx.check(not path, "beside:%s" % f.q, f.loc(n), "a file is made beside a temporary file; nothing removes it")
                else:
                    ctx.ok(n=1)


def callback(ctx, prog, g, n):
    a = n.args()
    cb = None
    for x in (a[1].walk() if len(a) > 1 and a[1] is not None else ()):
        if x.k == "ref" and x.x[0] == "f":
            name = str(x.x[2]).split("(")[0].split(" ")[-1] if len(x.x) > 2 else str(x.x[1])
            cb = [f for f in prog.F.values() if f.body is not None and f.file == g.file and (f.q == name or f.q.endswith("::" + name) or
                                                                                         f.name == x.x[1])]
        if x.k == "lambda":
            cb = [prog.F[x.x[0]]] if x.x[0] in prog.F else None
    if not cb:
        ctx.skip("%s: unknown callback" % g.loc(n))
        return
    cb = cb[0]
    rem = {nm(c) for c in cb.calls() if nm(c) in REMOVE}
    ctx.check(bool(rem), "walk-removes", cb.loc(), "the walk over the directory removes nothing", "files below are removed")
    ctx.check(bool(rem & {"remove", "rmdir", "unlinkat"}), "walk-dirs", cb.loc(), "directories inside a temporary directory are not removed (unlink "
              "fails for them), and the walk stops there", "directories below are removed")
    bad = []
    for r in cb.walk():
        if r.k == "return" and r.c and r.c[0] is not None:
            v = strip(r.c[0])
            if not (v is not None and v.k == "int" and int(v.x[0]) == 0):
                bad.append(r)
    ctx.check(not bad, "walk-stops", cb.loc(bad[0]) if bad else cb.loc(), "one entry that cannot be removed stops the walk; the others stay",
              "the walk goes on after a failure")
    if len(a) > 3 and a[3] is not None:
        names = {str(x.x[1]) for x in a[3].walk() if x.k == "ref"}
        ints = [int(x.x[0]) for x in a[3].walk() if x.k == "int"]
        depth = any("DEPTH" in s for s in names) or any(i & 8 for i in ints)
        phys = any("PHYS" in s for s in names) or any(i & 1 for i in ints)
        ctx.check(depth, "walk-depth", g.loc(n), "entries are visited after the directory that holds them", "FTW_DEPTH")
        ctx.check(phys, "walk-links", g.loc(n), "symbolic links are followed out of the directory: files elsewhere are removed", "FTW_PHYS")
