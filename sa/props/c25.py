"""C25: every constructor leaves every scalar member with a defined value before any code can read it."""
import re
from ..flow import strip
from ..facts import last_name

EXPLANATION = ("Must-assigned dataflow over the control-flow graph of every constructor of the code base (base and member "
               "initialisers, default member initialisers, assignments, members handed out by non-const reference or "
               "pointer, and interprocedurally the member functions the constructor calls): each scalar member (number, "
               "Boolean, enumeration, pointer, including those of nested class members and bases) that some code reads "
               "has a value on every normal path; objects of classes without constructors have their members set before "
               "they are read or handed over. Exemptions are by class or member, with the reason beside each.")
ROUNDS = 40


def simple(q):
    """unqualified name without template arguments"""
    out, depth = [], 0
    for ch in q or "":
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return "".join(out).rsplit("::", 1)[-1]


def local(q):
    """members of local classes: the name of the class without its function"""
    return q.rsplit(")::", 1)[1] if q and ")::" in q else q


def bare(t):
    t = (t or "").strip()
    t = re.sub(r"^(const|volatile) ", "", t)
    return re.sub(r" const$", "", t)


class Init(object):
    def __init__(self, prog):
        self.prog = prog
        self.csum = {}
        self.fsum = {}
        self.sc = {}
        self.work = set()
        self.kinds = {}
        self.utype = {q + "::" + f[0]: bare(f[1]) for q, c in prog.C.items() for f in c["fields"]}
        self.imp = {}
        self.bycls = {}
        for f in prog.F.values():
            if f.cls and f.name == simple(f.cls) and f.cls in prog.C:
                if f.params and len(f.params) == 1 and bare(f.params[0][1].rstrip("& ")) == f.cls and f.defaulted:
                    continue
                self.bycls.setdefault(f.cls, []).append(f)

    # ---- members
    def kind(self, t):
        """'s' scalar, 'c' class of the program, None otherwise"""
        if t not in self.kinds:
            self.kinds[t] = self._kind(t)
        return self.kinds[t]

    def _kind(self, t):
        t0 = bare(t)
        if not t0:
            return None
        if t0.endswith("&") or t0.endswith("&&"):
            return None
        if t0.endswith("]"):
            return None       # contents of arrays
        if "*" in t0 and (t0.endswith("*") or "(*)" in t0 or t0.endswith("*const")):
            return "s"
        if t0 in self.prog.C:
            return "s" if self.prog.C[t0].get("union") else "c"
        if t0 in self.prog.E:
            return "s"
        if re.match(r"^(unsigned |signed )?(bool|char|short|int|long|long long|__int128|float|double|long double|wchar_t)$", t0) or t0 == "unsigned":
            return "s"
        if "unnamed enum" in t0 or t0.startswith("enum "):
            return "s"
        return None

    def bases(self, q):
        c = self.prog.C.get(q)
        return [b for b in (c["bases"] if c else ()) if b in self.prog.C]

    def scalars(self, q, withbases=True):
        """all scalar subobjects of class q: tuple paths of field names"""
        k = (q, withbases)
        if k in self.sc:
            return self.sc[k]
        self.sc[k] = frozenset()
        out = set()
        c = self.prog.C.get(q)
        if c is not None:
            for f in c["fields"]:
                kd = self.kind(f[1])
                if kd == "s":
                    out.add((q + "::" + f[0],))
                elif kd == "c":
                    for s in self.scalars(bare(f[1])):
                        out.add((q + "::" + f[0],) + s)
            if withbases:
                for b in self.bases(q):
                    out |= self.scalars(b)
        self.sc[k] = frozenset(out)
        return self.sc[k]

    # ---- what a default-initialisation without a constructor of ours leaves undefined
    def implicit(self, q, depth=0):
        if q not in self.imp:
            self.imp[q] = set()
            self.imp[q] = self._implicit(q, depth)
        return self.imp[q]

    def _implicit(self, q, depth):
        out = set()
        c = self.prog.C.get(q)
        if c is None or depth > 8 or c.get("dep"):
            return out
        for b in self.bases(q):
            out |= self.default(b, depth + 1)
        for f in c["fields"]:
            if f[3]:
                continue
            kd = self.kind(f[1])
            if kd == "s":
                out.add((q + "::" + f[0],))
            elif kd == "c":
                for s in self.default(bare(f[1]), depth + 1):
                    out.add((q + "::" + f[0],) + s)
        return out

    def default(self, q, depth=0):
        for f in self.bycls.get(q, ()):
            if not f.params or all(p[-1] for p in f.params):
                return self.ctor(f)
        return self.implicit(q, depth)

    def constructed(self, n, t=None):
        """undefined scalars of the object made by construction expression n"""
        n = strip(n)
        if n is None:
            return set()
        if n.k == "ctor":
            f = self.prog.F.get(n.x[0])
            cls = n.x[2].rsplit("::", 1)[0]
            if f is not None and f.body is not None and not f.defaulted:
                return self.ctor(f)
            if n.x[3]:
                return set()
            if n.c:
                return set()      # implicit copy
            if f is not None and self.bycls.get(f.cls):
                return self.ctor(f)
            return self.implicit(bare(n.type))
        return set()

    # ---- constructors
    def ctor(self, f):
        if f.key in self.csum:
            return self.csum[f.key]
        if f.key in self.work:
            return set()
        self.work.add(f.key)
        und = set(self.scalars(f.cls))
        c = self.prog.C.get(f.cls)
        if c is None:
            return set()
        fields = {f.cls + "::" + x[0]: x for x in c["fields"]}
        if c.get("union"):
            return set()
        for q, x in fields.items():
            if x[3]:
                und = {u for u in und if u[0] != q}
        und = self.flow(f, und)
        self.work.discard(f.key)
        self.csum[f.key] = und
        return und

    def pathof(self, n, f):
        """path of `this->a.b` as tuple of qualified member names, () for *this, None otherwise"""
        n = strip(n)
        if n is None:
            return None
        if n.k == "this" or n.k == "un" and n.x[0] in ("*", "&") and n.c and strip(n.c[0]).k == "this":
            return ()
        if n.k == "mem":
            if not n.c:
                return (local(n.x[1]),)
            b = self.pathof(n.c[0], f)
            if b is None:
                return None
            return b + (local(n.x[1]),)
        if n.k == "idx":
            return self.pathof(n.c[0], f)
        if n.k == "un" and n.x[0] == "&":
            return self.pathof(n.c[0], f)
        if n.k == "un" and n.x[0] == "*":
            t = n.c[0]
            while t is not None and t.k in ("icast", "cast", "scast", "ccast", "paren", "rcast"):
                t = t.c[-1]
            t = strip(t)
            if t is not None and t.k == "un" and t.x[0] == "&":
                return self.pathof(t.c[0], f)
            return None
        if n.k == "icast" or n.k in ("cast", "scast", "ccast", "paren"):
            return self.pathof(n.c[-1], f)
        return None

    def gen(self, n, f):
        """paths given a value by node n (prefixes)"""
        k = n.k
        if k == "init":
            nm = local(n.x[0])
            if nm.startswith("<"):
                cls = None
                e = strip(n.c[0]) if n.c else None
                bad = self.constructed(e) if e is not None else set()
                b = nm[len("<base>"):] if nm.startswith("<base>") else f.cls
                return [("*", self.scalars(b) - bad)]
            e = strip(n.c[0]) if n.c else None
            if e is not None and e.k == "ctor":
                bad = self.constructed(e)
                return [("-", (nm,), {(nm,) + s for s in bad})]
            return [("+", (nm,))]
        if k == "bin" and n.x[0] == "=":
            p = self.pathof(n.c[0], f)
            return [("+", p)] if p is not None else []
        if k == "ocall" and n.mname == "operator=":
            p = self.pathof(n.c[0], f)
            return [("+", p)] if p is not None else []
        if k == "un" and n.x[0] == "&":
            p = self.pathof(n, f)       # its address is taken: it may be written through
            return [("+", p)] if p else []
        if k in ("call", "mcall", "ocall", "ctor", "new"):
            out = []
            args = n.args() if n.is_call() else n.c
            for i, a in enumerate(args):
                a0 = strip(a)
                if a0 is None:
                    continue
                amp = a0.k == "un" and a0.x[0] == "&"
                p = self.pathof(a0, f)
                if p is None or p == () and not amp and a0.k == "this" and last_name(n.cq or "") not in ("memset", "memcpy"):
                    continue
                if amp or last_name(n.cq or "") in ("memset", "memcpy", "memmove", "fill", "fill_n", "copy"):
                    out.append(("+", p))
                    continue
                t = self.prog.F.get(n.callee) if n.is_call() else None
                pt = t.params[i][1] if t is not None and i < len(t.params) else None
                if pt is not None and pt.endswith("&") and not pt.startswith("const"):
                    out.append(("+", p))
                elif pt is None and n.is_call() and last_name(n.cq or "") in ("operator>>", "getline", "swap", "tie"):
                    out.append(("+", p))
            if k == "mcall":
                p = self.pathof(n.c[0], f)
                if p is not None:
                    s = None
                    for t in self.prog.targets(n):
                        if t.static or t.body is None:
                            s = set()
                            break
                        x = self.method(t)
                        s = x if s is None else s & x
                    if s:
                        out.append(("*", {p + y for y in s}))
            return out
        return []

    def method(self, f):
        """scalars of its class (and bases) that f gives a value on every normal path"""
        if f.key in self.fsum:
            return self.fsum[f.key]
        self.fsum[f.key] = set()
        if f.cls not in self.prog.C or f.cfg is None:
            return set()
        allp = set(self.scalars(f.cls))
        und = self.flow(f, set(allp))
        self.fsum[f.key] = allp - und
        return self.fsum[f.key]

    def kill(self, und, g):
        if g[0] == "+":
            p = g[1]
            # giving one alternative of a union a value defines the union
            for i, x in enumerate(p):
                if self.prog.C.get(self.utype.get(x, ""), {}).get("union"):
                    p = p[:i + 1]
                    break
            return {u for u in und if u[:len(p)] != p}
        if g[0] == "-":
            p = g[1]
            return {u for u in und if u[:len(p)] != p} | g[2]
        return und - g[1]

    def flow(self, f, start):
        """union over paths of the undefined scalars at normal exit"""
        cfg = f.cfg
        if not cfg:
            und = set(start)
            for n in f.root.c:
                if n.k == "init":
                    for g in self.gen(n, f):
                        und = self.kill(und, g)
            return und
        nodes = {n.id: n for n in f.walk()}
        inn = {f.entry: frozenset(start)}
        gens = {}
        leaves = set()
        for b in cfg.values():
            l = []
            for el in b.elems:
                if isinstance(el, int) and el in nodes:
                    l += self.gen(nodes[el], f)
            gens[b.id] = l
            if b.noret or any(isinstance(el, int) and el in nodes and nodes[el].k == "throw" for el in b.elems):
                leaves.add(b.id)
        todo = [f.entry]
        outx = set()
        while todo:
            b = todo.pop()
            und = set(inn[b])
            for g in gens[b]:
                und = self.kill(und, g)
            if b == f.exit:
                outx |= und
                continue
            for s in cfg[b].succs if b not in leaves else ():
                if s is None or s < 0 or s not in cfg:
                    continue
                old = inn.get(s)
                new = frozenset(und) if old is None else old | und
                if new != old:
                    inn[s] = new
                    todo.append(s)
        return outx


def uncast(n):
    n = strip(n)
    while n is not None and n.k in ("icast", "cast", "scast", "ccast", "paren") and n.c and n.k == "icast":
        n = strip(n.c[-1])
    return n


# the same object under two types
ALIAS = {"MiniZinc::VarDeclI": "MiniZinc::VarDecl"}
NODE_BASES = ("MiniZinc::ASTNode", "MiniZinc::Expression", "MiniZinc::Item")


def inswitch(n):
    while n is not None:
        if n.k == "switch":
            return True
        n = n.p
    return False


def readers(prog):
    """field -> {static class of the object: reading node}"""
    out = {}
    for f in prog.F.values():
        if f.defaulted:
            continue
        for n in f.walk():
            if n.k == "mem":
                p = n.p
                if p is not None and p.k == "bin" and p.x[0] == "=" and p.c[0] is n:
                    continue
                if p is not None and p.k == "ocall" and p.mname == "operator=" and p.c and p.c[0] is n:
                    continue
                b = uncast(n.c[0]) if n.c else None
                t = f.cls if b is None or b.k == "this" else bare((b.type or "").replace(" *const", "").rstrip("*& "))
                if t in NODE_BASES and inswitch(n):
                    continue        # the meaning of the bits of a node of some kind
                out.setdefault(local(n.x[1]), {}).setdefault(ALIAS.get(t, t), n)
    return out


def ancestors(prog, q, seen=None):
    seen = set() if seen is None else seen
    if q in seen:
        return seen
    seen.add(q)
    for b in prog.C.get(q, {}).get("bases", ()):
        ancestors(prog, b, seen)
    return seen


# constructed in two steps, or members that only have a meaning for some value of another member (see DESIGN.md)
EXEMPT = {
    "MIPGurobiWrapper": "without options only the library's functions are looked up (checkDLL) before the first use",
    "MIPWrapper::Output::status": "set by every solve() before the results are looked at",
    "MiniZinc::ArrayAccessSucess": "the details are only read after fail() set them",
    "MiniZinc::CallNary::_args": "set by Call::a, the only creator",
    "MiniZinc::ConstraintIterator": "default constructed iterators are only assigned to",
    "MiniZinc::FunctionIterator": "default constructed iterators are only assigned to",
    "MiniZinc::VarDeclIterator": "default constructed iterators are only assigned to",
    "MiniZinc::FznSpace::solveType": "set by processFlatZinc, which creates the space",
    "MiniZinc::GecodeSolverInstance": "the options are set at the start of processFlatZinc, which precedes every use",
    "MiniZinc::IncludeI": "whether the included model is owned is set together with the model",
    "MiniZinc::JSONParser": "every entry point sets the position first",
    "MiniZinc::JSONParser::Token": "the value belongs to the token kind",
    "MiniZinc::MIPD": "set by registerLinearConstraints before any constraint is looked at",
    "MiniZinc::NLToken": "filled by its factory functions, by kind",
    "MiniZinc::ParserState::yyscanner": "set by the scanner's initialisation before parsing",
    "MiniZinc::SolveI": "the kind is set by the factory functions, the only creators",
    "MiniZinc::XBZCutGen": "filled by the only creator",
    "FindLatestGen": "created only for a comprehension with at least one generator that ranges over something",
    "CutInfo": "filled by the library call it is handed to",
}


def exempt(cls, u=None):
    return cls in EXEMPT or u is not None and (u[-1] in EXEMPT or u[-1].rsplit("::", 1)[0] in EXEMPT and len(u) > 1)


def under_init(n):
    p = n.p
    while p is not None and p.k in ("icast", "cast", "cleanups", "paren", "mat", "temp", "bind"):
        p = p.p
    return p if p is not None and p.k == "init" else None


def check(ctx):
    prog = ctx.prog
    I = Init(prog)
    rd = readers(prog)
    inner, outer = set(), {}
    sites = []
    for f in prog.F.values():
        for n in f.walk():
            if n.k == "ctor":
                if under_init(n) is not None:
                    inner.add(n.x[0])
                else:
                    outer.setdefault(n.x[0], n)
                    if not n.c and not n.x[3]:
                        sites.append(n)
    n = 0
    done = set()
    for cls, fs in sorted(I.bycls.items()):
        for f in fs:
            if f.defaulted and f.params or prog.C[cls].get("union"):
                continue
            if f.key in inner and f.key not in outer:
                continue
            n += 1
            ctx.count("members", len(I.scalars(cls)))
            good = True
            for u in sorted(I.ctor(f)):
                r = rd.get(u[-1], {})
                anc = ancestors(prog, cls) if len(u) == 1 else set(r)
                if not any(t in anc for t in r):
                    continue
                if len(u) > 1 and any(g.key in outer for g in I.bycls.get(u[-1].rsplit("::", 1)[0], ())):
                    continue
                if exempt(cls, u):
                    continue
                good = False
                ctx.bad("ctor:%s:%s" % (f.key, ".".join(last_name(x) for x in u)), f.loc(f.root),
                        "constructor %s leaves %s undefined" % (f.key, ".".join(u)))
            if good:
                ctx.ok("%s: every scalar member that is read has a value" % f.q)
    ctx.count("constructors", n)
    ctx.need("constructors", 300)
    ctx.need("members", 1500)
    sites_without_constructor(ctx, prog, I, sites, rd)


def sites_without_constructor(ctx, prog, I, sites, rd):
    """objects of classes without a constructor of their own: their creator gives the members values"""
    for n in sites:
        if n.x[0] in prog.F and not prog.F[n.x[0]].defaulted:
            continue
        und = {u for u in I.constructed(n) if u[-1] in rd}
        if not und or exempt(bare(n.type)):
            continue
        f = n.fn
        v = n.p
        while v is not None and v.k in ("icast", "cleanups", "paren", "mat", "temp", "bind", "new"):
            v = v.p
        if v is None or v.k != "var" or f.cfg is None:
            ctx.skip("%s: %s created in an expression" % (f.loc(n), bare(n.type)))
            continue
        ctx.count("creations without a constructor")
        bad = Local(I, f, v, und).run()
        for u, r in sorted(bad.items(), key=str):
            ctx.bad("local:%s:%s:%s" % (f.q, v.x[0], ".".join(last_name(x) for x in u)), f.loc(r),
                    "%s of %s is read here before it has a value on some path" % (".".join(last_name(x) for x in u), v.x[0]))
        if not bad:
            ctx.ok("%s %s" % (f.loc(n), v.x[0]))


class Local(object):
    """reads of members of a local object before they have a value"""
    def __init__(self, I, f, v, und):
        self.I, self.f, self.v, self.und = I, f, v, und

    def path(self, n):
        n = strip(n)
        if n is None:
            return None
        if n.k == "ref":
            return () if n.x[0] == "v" and n.x[2] == self.v.x[1] else None
        if n.k in ("icast", "cast", "scast", "ccast", "paren", "mat", "temp", "bind") and n.c:
            return self.path(n.c[-1])
        if n.k == "un" and n.x[0] in ("&", "*"):
            return self.path(n.c[0])
        if n.k == "mem" and n.c:
            b = self.path(n.c[0])
            return None if b is None else b + (local(n.x[1]),)
        if n.k == "ocall" and n.mname in ("operator->", "operator*"):
            return self.path(n.c[0])
        return None

    def step(self, n, und, bad):
        if n.k == "bin" and n.x[0] == "=" or n.k == "ocall" and n.mname == "operator=":
            p = self.path(n.c[0])
            if p is not None:
                return self.I.kill(und, ("+", p))
            return und
        if n.k == "mem":
            p = self.path(n)
            q = n.p
            if p is None or q is None:
                return und
            if q.k == "mem" or q.k == "bin" and q.x[0] == "=" and q.c[0] is n or q.k == "ocall" and q.mname == "operator=" and q.c[0] is n:
                return und
            if q.k == "un" and q.x[0] == "&" or q.k == "ocall" and q.mname == "operator>>":
                return self.I.kill(und, ("+", p))
            if q.k in ("call", "mcall", "ctor", "ocall") and q.is_call():
                for i, a in enumerate(q.args()):
                    if strip(a) is strip(n):
                        t = self.I.prog.F.get(q.callee)
                        pt = t.params[i][1] if t is not None and i < len(t.params) else None
                        if pt is None or pt.endswith("&") and not pt.startswith("const"):
                            return self.I.kill(und, ("+", p))
            for u in und:
                if u[:len(p)] == p:
                    bad.setdefault(u, n)
            return und
        if n.k == "ref" and self.path(n) == () and n.p is not None and n.p.k not in ("mem",):
            q = n.p
            if q.k == "ocall" and q.mname == "operator=" and q.c[0] is n:
                return und
            return set()          # handed over as a whole
        return und

    def run(self):
        cfg = self.f.cfg
        nodes = {n.id: n for n in self.f.walk()}
        bad = {}
        inn = {}
        todo = []
        for b in cfg.values():
            if any(isinstance(el, int) and el in nodes and self.v in nodes[el].walk() and nodes[el].k in ("decl", "var") or
                   isinstance(el, (list, tuple)) and el[0] == "V" and el[1] == self.v.x[1] for el in b.elems):
                inn[b.id] = frozenset()
                todo.append(b.id)
        while todo:
            b = todo.pop()
            und = set(inn[b])
            for el in cfg[b].elems:
                if isinstance(el, (list, tuple)):
                    if el[0] == "V" and el[1] == self.v.x[1]:
                        und = set(self.und)
                    continue
                n = nodes.get(el)
                if n is None:
                    continue
                if n.k in ("decl", "var") and self.v in n.walk():
                    und = set(self.und)
                else:
                    und = self.step(n, und, bad)
            for s in cfg[b].succs:
                if s is None or s < 0 or s not in cfg:
                    continue
                old = inn.get(s)
                new = frozenset(und) if old is None else old | und
                if new != old:
                    inn[s] = new
                    todo.append(s)
        return bad
