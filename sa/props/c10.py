"""C10: declarations of the library and the code that implements them agree.

Both sides are enumerated from the sources: the signatures of the library files, and the tables that register evaluators
of built-ins and posters of constraints. Obligations:
 1. every function (parameter result) or test the standard library declares without a body has an evaluator registered for
    its name and argument kinds, or the compiler handles that name elsewhere (operators, functions it rewrites itself);
 2. every registered evaluator belongs to a declared signature and yields the kind of value declared there;
 3. a constraint a solver-specific library leaves without a body has a poster in that backend;
 4. a predicate a solver-specific library redefines has the parameters the standard library declares for it;
 5. a poster reads only argument positions that the declaration of its constraint has, ignores none of them, and converts each to the kind
    declared."""
import os

from ..builtins import Ty, table
from ..facts import AnalysisError, last_name
from ..flow import strip
from ..mznsig import Lib, library, uses
from .c09 import Analysis

EXPLANATION = ("Declarations are parsed from share/minizinc, registrations are read off the C++ sources (interpreted abstractly); one "
               "obligation per body-less function, per registration, per body-less solver constraint, per redefinition and per poster.")

RET = {"MiniZinc::IntVal": ("int", False), "bool": ("bool", False), "MiniZinc::FloatVal": ("float", False),
       "MiniZinc::IntSetVal *": ("int", True), "MiniZinc::FloatSetVal *": ("float", True), "std::string": ("string", False)}
BACKENDS = (("gecode_presolver", "MiniZinc::GecodeSolverInstance::registerConstraints"),
            ("linear", "MiniZinc::MIPSolverinstance<"))
LOOSE = ("TOP", "BOT", "UNK")


def norm(n):
    return n[1:-1] if len(n) > 2 and n[0] == n[-1] == "'" else n


def fits(tys, params):
    """the registered argument kinds are those of the declaration"""
    if len(tys) != len(params):
        return False
    for a, b in zip(tys, params):
        if b.any or b.base == "?":
            continue
        if (a.dim != 0) != (b.dim != 0) and not (a.bt in LOOSE and b.base in ("tuple", "record")):
            return False
        if a.bt in LOOSE or b.base == "$T":
            continue
        if a.bt.lower() != b.base or (a.st == "SET") != b.set:
            return False
    return True


def same(a, b):
    return len(a.params) == len(b.params) and all(
        (x.base == y.base or "$T" in (x.base, y.base)) and x.set == y.set and (x.dim != 0) == (y.dim != 0) and
        (x.opt == y.opt) for x, y in zip(a.params, b.params))


def posters(P, fn):
    """name -> [poster function keys] registered by fn (and the helpers it calls with a name and a function)"""
    out = {}

    def prefixes(h):
        """prefixes a registration helper puts in front of the name it is given"""
        res = []
        for c in h.calls():
            if c.k == "mcall" and (c.cq or "").endswith("Registry::add") and len(c.c) > 1:
                a = c.c[1]
                lit = [x.x[0] for x in a.walk() if x.k == "str"]
                if lit:
                    res.append(lit[0])
                    continue
                vs = [x for x in a.walk() if x.k == "ref" and x.x[0] == "v"]
                if vs:
                    pre = ""
                    for x in h.walk():
                        if x.k == "ocall" and last_name(x.cq or "") == "operator<<":
                            if any(y.k == "ref" and y.x[0] == "v" and y.x[2] == vs[0].x[2] for y in x.walk()):
                                l = [y.x[0] for y in x.c[1].walk() if y.k == "str"]
                                if l:
                                    pre = l[0] + pre
                    for x in h.walk():
                        if x.k == "var" and x.x[1] == vs[0].x[2]:
                            l = [y.x[0] for y in x.walk() if y.k == "str"]
                            if l:
                                pre = l[0]
                    res.append(pre)
                    continue
                res.append("")
        return res

    seen = set()

    def tables(f):
        """pairs of a name and a function in a table that a loop hands to the registration"""
        for x in f.walk():
            if not (x.k == "ref" and x.x[0] == "f" and len(x.x) > 2 and "Call *" in str(x.x[2])) or id(x) in used:
                continue
            q, st = x.p, []
            while q is not None and not st and q.k not in ("{", "fn", "for", "while"):
                st = [y.x[0] for y in q.walk() if y.k == "str"]
                last, q = q, q.p
            if len(st) != 1 or len([y for y in last.walk() if y.k == "ref" and y.x[0] == "f" and "Call *" in str(y.x[-1])]) != 1:
                continue
            pre = set()
            for c in f.calls():
                if c.is_call() and c.k != "ctor" and "egister" in str(c.mname):
                    for t in P.targets(c):
                        if not isinstance(t, str):
                            pre |= set(prefixes(t) or [""])
            for r in pre or [""]:
                out.setdefault(r + st[0], []).append((x.x[2], x))

    used = set()

    def scan(f, depth):
        if f.key in seen or depth > 3:
            return
        seen.add(f.key)
        for c in f.calls():
            if not c.is_call() or c.k == "ctor":
                continue
            args = c.c[1:] if c.k == "mcall" else c.c
            fr = [x for a in args for x in a.walk() if x.k == "ref" and x.x[0] == "f" and len(x.x) > 2 and
                  "Call *" in str(x.x[2])]
            st = [x.x[0] for a in args for x in a.walk() if x.k == "str"]
            if fr and st:
                used.update(id(x) for x in fr)
                pre = [""]
                for t in P.targets(c):
                    if not isinstance(t, str) and not t.q.endswith("Registry::add"):
                        pre = prefixes(t) or [""]
                for p in pre:
                    out.setdefault(p + st[0], []).append((fr[-1].x[2], c))
            elif not fr:
                for t in P.targets(c):
                    if not isinstance(t, str) and t.file == f.file and "egister" in t.q:
                        scan(t, depth + 1)
        tables(f)
    scan(fn, 0)
    return out


class S(object):
    def __init__(self, sig):
        self.sig = sig
        self.tys = [Ty("VAR" if p.var else "PAR", "TOP" if p.base in ("$T", "?", None) or p.any else p.base.upper(),
                       "SET" if p.set else "PLAIN", "OPTIONAL" if p.opt else "PRESENT", p.dim) for p in sig.params]

    def __repr__(self):
        return repr(self.sig)


def check(ctx):
    P = ctx.prog
    from ..facts import REPO
    share = os.path.join(REPO, "share", "minizinc")
    L = library(os.path.join(share, "std"))
    if len(L) < 1500:
        raise AnalysisError("only %d library declarations parsed" % len(L))
    ctx.count("library declarations", len(L))
    names = {}
    for s in L:
        names.setdefault(norm(s.name), []).append(s)
    tb = table(P)
    if len(tb.regs) < 200:
        raise AnalysisError("only %d registrations understood" % len(tb.regs))
    for s in tb.skipped:
        ctx.skip("%s:%s: registration not understood" % (tb.fn.file, s.line))
    regs = {}
    for r in tb.regs:
        regs.setdefault(norm(r.name), []).append(r)

    # names the compiler treats itself: string literals and named identifiers used outside the registration
    handled = set()
    for f in P.F.values():
        if f.key == tb.fn.key or not f.file.startswith(("lib/", "include/")) or "Constants::Constants" in f.q:
            continue
        for n in f.walk():
            if n.k == "str":
                handled.add(n.x[0])
            elif n.k == "mem" and "Constants" in str(n.x[1]):
                handled.add(norm(tb.idname(n.x[1])))

    # 1. functions without a body
    for s in L:
        if s.body or s.kind in ("predicate", "annotation") or s.ret.base == "ann" or s.ret.var:
            continue
        nm = norm(s.name)
        if nm != s.name or ".deprecated" in s.file:
            continue  # operators are evaluated by the compiler
        ctx.count("functions without a body", 1)
        if any(fits(r.tys, s.params) for r in regs.get(nm, [])):
            ctx.ok("%s has an evaluator" % s)
        elif any(t.body and same(s, t) for t in names[nm]):
            ctx.ok("%s has a version with a body for fixed arguments" % s)
        elif any(len(r.tys) == len(s.params) and all(
                a.bt in ("INT", "BOOL", "FLOAT") and b.base == "float" and a.dim == b.dim == 0 or fits([a], [b])
                for a, b in zip(r.tys, s.params)) for r in regs.get(nm, [])):
            ctx.ok("%s has an evaluator by coercion" % s)
        elif nm in handled and nm not in regs:
            ctx.ok("%s is treated by the compiler" % s)
        else:
            ctx.bad("noeval:%s" % s, "share/minizinc/std/" + s.file,
                    "function %r is declared without a body and no evaluator is registered for these arguments" % s)

    # 2. evaluators belong to declarations
    for r in tb.regs:
        nm = norm(r.name)
        cand = [s for s in names.get(nm, []) if len(s.params) == len(r.tys)]
        loc = tb.fn.loc(r.node)
        if not names.get(nm):
            ctx.skip("%s: built-in %s is not declared in the library" % (loc, nm))
            continue
        if not cand:
            ctx.bad("nodecl:%r" % r, loc, "evaluator registered for %r, but %s is declared only with %s arguments" %
                    (r, nm, "/".join(sorted(set(str(len(s.params)) for s in names[nm])))))
            continue
        fit = [s for s in cand if fits(r.tys, s.params)]
        if not fit:
            ctx.count("registrations served by coercion", 1)
            continue
        rk = RET.get(r.ret)
        if rk is None:
            ctx.ok("%r is declared" % r)
            continue
        ctx.check(any((s.ret.base in (rk[0], "$T", "?") and (s.ret.set == rk[1] or s.ret.base == "$T")) and s.ret.dim == 0
                      for s in fit), "ret:%r" % r, loc,
                  "evaluator of %r yields %s, but the library declares %r" % (r, r.ret, fit[0].ret),
                  "%r yields what is declared" % r)

    # 6. every file a model may include can be loaded, and declares whatever it calls
    for lib in ("std", "gecode_presolver", "linear", "geas"):
        if not os.path.isdir(os.path.join(share, lib)):
            ctx.skip("no library %s" % lib)
            continue
        L = Lib(share, lib)
        reported = set()
        base = set(n for p in L.builtin for n in L.load(p)[1])
        for root in ["solver_redefinitions.mzn"] + L.public():
            L.missing = set()
            cl = L.closure([root, "stdlib.mzn", "solver_redefinitions.mzn"])
            decl = set(base)
            for p in cl:
                decl |= L.load(p)[1]
            ctx.count("library files loaded", 1)
            bad = False
            for by, n in sorted(L.missing, key=str):
                bad = True
                if (by, n) not in reported:
                    reported.add((by, n))
                    ctx.bad("include:%s:%s" % (lib, n), os.path.relpath(by or share, REPO), "includes %s, which the library "
                            "path of %s does not contain: no model can include %s" % (n, lib, root))
            for p in sorted(cl):
                if p in L.builtin and root != "solver_redefinitions.mzn":
                    continue
                for n in sorted(L.load(p)[2] - decl):
                    bad = True
                    if (p, n) not in reported:
                        reported.add((p, n))
                        ctx.bad("undeclared:%s:%s" % (lib, n), os.path.relpath(p, REPO), "calls %s, which neither the file nor "
                                "anything it includes declares (loaded through %s with library %s)" % (n, root, lib))
            if not bad:
                ctx.ok("%s: %s declares what it calls" % (lib, root))

    # 3.-5. solver libraries
    for lib, regq in BACKENDS:
        G = library(os.path.join(share, lib))
        fs = [f for f in P.F.values() if f.q == regq or regq.endswith("<") and f.q.startswith(regq) and
              f.q.endswith("::registerConstraints")]
        if not G or not fs:
            ctx.skip("library or registration of %s not found" % lib)
            continue
        fs = fs[:1]
        po = posters(P, fs[0])
        if len(po) < 12:
            raise AnalysisError("only %d posters found for %s" % (len(po), lib))
        ctx.count("posters", len(po))
        known = set(po)
        for f in P.F.values():
            if f.file.startswith("lib/MIPdomains") and lib == "linear":
                known |= set(n.x[0] for n in f.walk() if n.k == "str")
        gn = {}
        used = dict(uses(os.path.join(share, "std")))
        used.update(uses(os.path.join(share, lib)))
        for s in G:
            gn.setdefault(s.name, []).append(s)
            if s.kind == "annotation" or s.ret.base == "ann":
                continue
            where = "share/minizinc/%s/%s" % (lib, s.file)
            if s.name in names and s.file.startswith("fzn_") and s.name.startswith("fzn_"):
                ctx.check(any(same(s, t) for t in names[s.name]), "redef:%s:%s" % (lib, s.name), where,
                          "%s redefines %r, which the standard library declares as %r" % (lib, s, names[s.name][0]),
                          "%s: %s has the declared parameters" % (lib, s.name))
            if not s.body and s.kind == "predicate" and s.name not in used:
                ctx.count("constraints of solver libraries without a use", 1)
            elif not s.body and s.kind == "predicate":
                ctx.check(s.name in known, "noposter:%s:%s" % (lib, s.name), where,
                          "%s leaves %r without a body, but the backend registers no constraint of that name" % (lib, s),
                          "%s: %s has a poster" % (lib, s.name))
        byfn = {}
        for nm, l in sorted(po.items()):
            # only declarations without a body reach the backend; those of the FlatZinc level in the standard library
            sg = gn.get(nm)
            if sg is None:
                sg = [s for s in names.get(nm, []) if not s.file.startswith("stdlib") and ".deprecated" not in s.file]
            sg = [s for s in sg if not s.body and s.kind == "predicate" and (s.name in used or s.name in handled or
                                                                             s.file.startswith("flatzinc_builtins"))]
            sg = [s for s in sg if not any(fits(r.tys, s.params) for r in regs.get(nm, []))]
            for k, c in l:
                byfn.setdefault(k, []).extend(S(s) for s in sg)
        for k, sg in sorted(byfn.items()):
            f = P.F.get(k)
            if f is None or not f.cfg or not sg:
                continue
            ci = [i for i, p in enumerate(f.params) if "Call *" in str(p)]
            if len(ci) != 1:
                continue
            an = Analysis(P, sg, f.file)
            an.visit(f, {ci[0]: ("call",)}, frozenset(range(len(sg))))
            ctx.count("poster argument positions", len(an.nidx))
            ctx.count("poster argument conversions", len(an.nev))
            for (what, fk, line), (g, n, msg) in sorted(an.found.items(), key=lambda z: str(z[0])):
                ctx.bad("poster:%s:%s:%s" % (lib, last_name(f.q), what), g.loc(n), "%s: %s" % (last_name(f.q), msg))
            for sg_, m in an.unread():
                an.found[("unread", repr(sg_), 0)] = None
                ctx.bad("unread:%s:%s:%s" % (lib, last_name(f.q), m), f.loc(), "the poster of %r never reads argument %s" %
                        (sg_, ", ".join(map(str, m))))
            if not an.found:
                ctx.ok("%s: %s fits its %d declarations" % (lib, last_name(f.q), len(sg)))
