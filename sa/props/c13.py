"""C13: a reported status is never stronger than what was established, and every status has its own text that is recognised back."""
import os
import re
from ..facts import REPO
from ..flow import strip, canon
from .. import must
from ..nonzero import NonZero

EXPLANATION = (
    "Every place that produces a conclusive status (optimal/complete, unsatisfiable, unbounded) is an obligation: on every path to it, a condition or switch label must "
    "establish it - a conclusive result of the solver library, the search engine having ended without being stopped and without a further solution, or an equally "
    "strong status it is converted from. The evidence is collected by a forward must-analysis of branch outcomes (and a may-analysis of switch labels). Result codes of NL "
    "solvers are compared as intervals with the format's definition, the message fed for each NL status with a table, and the texts printed for statuses with the table that "
    "recognises them in a solver's output.")

STRONG = ("OPT", "UNSAT", "UNBND", "UNSATorUNBND")

# which names of library results establish which status (upper case, without separators)
NAMES = {
    "OPT": (re.compile(r"OPTIMAL|(^|::)OPT$"), re.compile(r"TOL|LIM|INFEAS|SUBOPT|FEASIBLE|TARGET|BOUND")),
    "UNSAT": (re.compile(r"INFEASIBLE|(^|::)UNSAT$"), re.compile(r"UNB|ORUNB|ABORT|FAIL|RELAX|LIM|DUAL|OPTIMAL")),
    "UNBND": (re.compile(r"UNBOUNDED|UNBND$|DUALINFEASIBLE"), re.compile(r"INFOR|ORINF|UNSATOR|ABORT|RELAX|LIM")),
    "UNSATorUNBND": (re.compile(r"INFORUNB|UNSATORUNBND|UNBOUNDEDORINF|INFEASIBLEORUNB"), re.compile(r"ABORT|FAIL|LIM")),
}

# result codes of NL solvers
NLCODES = {"SOLVED": (0, 99), "UNCERTAIN": (100, 199), "INFEASIBLE": (200, 299), "UNBOUNDED": (300, 399), "LIMIT": (400, 499),
           "FAILURE": (500, 599), "INTERRUPTED": (600, 600), "UNKNOWN": (-1, -1)}
# what may be reported for each NL status
NLTEXT = {"searchCompleteMsgDef": {"SOLVED"}, "unsatisfiableMsgDef": {"INFEASIBLE"}, "unboundedMsgDef": {"UNBOUNDED"},
          "unsatorunbndMsgDef": set(), "errorMsgDef": {"PARSE_ERROR", "FAILURE"}, "solutionSeparatorDef": {"SOLVED"},
          "unknownMsgDef": {"UNKNOWN", "UNCERTAIN", "LIMIT", "INTERRUPTED", "FAILURE", "PARSE_ERROR"}}
INF = float("inf")


class Outcomes(object):
    """at every node: the branch outcomes that hold on every path to it, and the labels by which each enclosing switch can have been entered"""

    def __init__(self, prog, fn, start=None):
        """start: (block, position, facts, labels, variable) - follow only the paths from a definition of the variable to its next one"""
        self.start = start
        self.prog = prog
        self.fn = fn
        self.nz = NonZero.__new__(NonZero)
        self.nz.prog = prog
        self.nz.fn = fn
        self.at = {}
        self._run()

    def _edge(self, b, i, st):
        facts, sw = st
        t = b.term
        if not t or t[2] < 0:
            return st
        if t[0] == "SwitchStmt":
            s = b.succs[i]
            lab = self.fn.cfg[s].label if s >= 0 else -1
            v = "default"
            if lab >= 0 and self.fn.nodes[lab].k == "case":
                v = lab
            sw = dict(sw)
            sw[t[1]] = frozenset([v])
            return facts, sw
        ec = must.edge_cond(self.fn, b, i)
        if ec is None:
            return st
        return facts | {(ec[0].id, ec[1])}, sw

    def _transfer(self, b, st, record, first=None):
        facts, sw = st
        for pos, el in enumerate(b.elems):
            if isinstance(el, list):
                continue
            if first is not None and pos <= first:
                continue
            n = self.fn.nodes[el]
            if self.start and defines(n, self.start[4]):
                return None
            if record:
                o = self.at.get(n.id)
                self.at[n.id] = (facts, sw) if o is None else self._join(o, (facts, sw))
            for w in (() if self.start else self.nz._writes(n)):
                r = NonZero._root(w)
                if r:
                    facts = frozenset(f for f in facts if not NonZero._mentions(canon(self.fn.nodes[f[0]]), r))
            if n.k == "mcall" and n.mname == "next" and n.c:
                # going on with the search: what is known about the engine is out of date
                c = canon(n.c[0])
                facts = frozenset(f for f in facts if c not in canon(self.fn.nodes[f[0]]))
        return facts, sw

    @staticmethod
    def _join(a, b):
        sw = dict((k, a[1].get(k, frozenset()) | b[1].get(k, frozenset())) for k in set(a[1]) & set(b[1]))
        return a[0] & b[0], sw

    def _run(self):
        bl = self.fn.cfg
        IN = {self.fn.entry: (frozenset(), {})}
        work = [self.fn.entry]
        if self.start:
            b, pos, facts, sw, _ = self.start
            out = self._transfer(bl[b], (facts, sw), True, pos)
            IN, work = {}, []
            for i, s in enumerate(bl[b].succs if out is not None else ()):
                if s >= 0:
                    ns = self._edge(bl[b], i, out)
                    IN[s] = ns if s not in IN else self._join(IN[s], ns)
                    work.append(s)
        it = 0
        while work and it < 100 * len(bl) + 500:
            it += 1
            b = work.pop(0)
            out = self._transfer(bl[b], IN[b], False)
            if out is None:
                continue
            for i, s in enumerate(bl[b].succs):
                if s < 0:
                    continue
                ns = self._edge(bl[b], i, out)
                if s not in IN:
                    IN[s] = ns
                    work.append(s)
                else:
                    m = self._join(IN[s], ns)
                    if m != IN[s]:
                        IN[s] = m
                        if s not in work:
                            work.append(s)
        for b in IN:
            self._transfer(bl[b], IN[b], True)

    def state(self, node):
        n = node
        while n is not None:
            if n.id in self.at:
                return self.at[n.id]
            n = n.p
        return frozenset(), {}


def defines(n, var):
    """does the node give the local variable a new value?"""
    if n.k == "bin" and n.x[0] == "=" or n.k == "ocall" and n.mname == "operator=":
        t = strip(n.c[0])
        return t.k == "ref" and t.x[0] == "v" and t.x[2] == var
    return n.k == "var" and len(n.x) > 1 and n.x[1] == var


_src = {}


def source(f, a, b):
    if f.file not in _src:
        try:
            _src[f.file] = open(os.path.join(REPO, f.file), errors="replace").read().split("\n")
        except OSError:
            _src[f.file] = []
    return " ".join(_src[f.file][a - 1:b])


def names_of(f, n):
    """names a case label or compared constant is written with"""
    out = set()
    if n.k == "case":
        if n.x[1]:
            out.add(str(n.x[1]).split("::")[-1])
        else:
            m = re.search(r"case\s+([\w:]+)\s*:", source(f, n.line, n.line))
            if m:
                out.add(m.group(1).split("::")[-1])
    else:
        for x in _walk(n):
            if x.k == "ref" and x.x[0] in ("e", "g"):
                out.add(str(x.x[1]).split("::")[-1])
        txt = source(f, n.line, max([n.line] + [x.line for x in _walk(n)]))
        out |= set(re.findall(r"\b[A-Z][A-Z0-9]*_\w+\b|\bk[A-Z]\w+\b", txt))
    return out


def _walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st += [c for c in x.c if c is not None]


def says(name, status):
    yes, no = NAMES[status]
    u = name.replace("_", "").upper()
    return yes.search(u if status != "UNSATorUNBND" else u) is not None and not no.search(u) or name == status


def from_next(prog, f, n, depth=0):
    """does the pointer come from asking the search engine for the next solution?"""
    n = strip(n)
    if n is None or depth > 4:
        return False
    if n.is_call() and n.mname == "next":
        return True
    if n.k == "ref" and n.x[0] == "v":
        for x in f.walk():
            if x.k == "var" and len(x.x) > 1 and x.x[1] == n.x[2] and x.c and from_next(prog, f, x.c[0], depth + 1):
                return True
            if x.k == "bin" and x.x[0] == "=" and strip(x.c[0]).k == "ref" and strip(x.c[0]).x[:1] == ["v"] and \
                    strip(x.c[0]).x[2] == n.x[2] and from_next(prog, f, x.c[1], depth + 1):
                return True
    if n.k == "mem":
        for g in prog.F.values():
            if g.cls != f.cls or g.body is None:
                continue
            for x in g.walk():
                if x.k == "bin" and x.x[0] == "=" and strip(x.c[0]).k == "mem" and strip(x.c[0]).x[1] == n.x[1] and \
                        from_next(prog, g, x.c[1], depth + 1):
                    return True
    return False


def null_test(n, truth):
    """(operand, is null)"""
    n = strip(n)
    if n.k == "bin" and n.x[0] in ("==", "!="):
        for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
            if strip(b).k in ("nullptr",) or strip(b).k == "int" and str(strip(b).x[0]) == "0" and "*" in (strip(a).type or ""):
                return a, (n.x[0] == "==") == truth
    if n.k in ("ref", "mem") and "*" in (n.type or ""):
        return n, not truth
    return None


def exhausted(prog, f, n, truth, depth=0):
    """does the outcome say that the engine returned no further solution?"""
    n = strip(n)
    if n is None or depth > 4:
        return False
    t = null_test(n, truth)
    if t:
        return t[1] and from_next(prog, f, t[0])
    if n.k == "un" and n.x[0] == "!":
        return exhausted(prog, f, n.c[0], not truth, depth + 1)
    if n.k == "ref" and n.x[0] == "p" and truth and "bool" in (n.type or ""):
        i = [p[0] for p in f.params].index(n.x[1]) if n.x[1] in [p[0] for p in f.params] else -1
        ok = False
        for c in prog.callers.get(f.key, ()):
            g = prog.F[c]
            for x in g.walk():
                if x.is_call() and any((t2 if isinstance(t2, str) else t2.key) == f.key for t2 in prog.targets(x)):
                    a = x.args()
                    if i >= len(a):
                        return False
                    v = strip(a[i])
                    if v.k == "bool" and not v.x[0]:
                        continue
                    if not exhausted(prog, g, v, True, depth + 1):
                        return False
                    ok = True
        return ok
    if n.k == "ref" and n.x[0] == "v" and "bool" in (n.type or ""):
        d = [x.c[0] for x in f.walk() if x.k == "var" and len(x.x) > 1 and x.x[1] == n.x[2] and x.c]
        return len(d) == 1 and exhausted(prog, f, d[0], truth, depth + 1)
    return False


def leaf(prog, f, n, truth, status, seen):
    """what one branch outcome establishes: subset of {'proof', 'notstopped', 'nomore', 'nosolution'}"""
    n = strip(n)
    out = set()
    if n.k == "un" and n.x[0] == "!":
        return leaf(prog, f, n.c[0], not truth, status, seen)
    if n.k == "bin" and n.x[0] in ("&&", "||"):
        a = leaf(prog, f, n.c[0], truth, status, seen)
        b = leaf(prog, f, n.c[1], truth, status, seen)
        return (a | b) if (n.x[0] == "&&") == truth else (a & b)
    if n.k == "ref" and n.x[0] == "v" and "bool" in (n.type or "") and n.x[2] not in seen:
        d = [x.c[0] for x in f.walk() if x.k == "var" and len(x.x) > 1 and x.x[1] == n.x[2] and x.c]
        if len(d) == 1:
            return leaf(prog, f, d[0], truth, status, seen | {n.x[2]})
    if n.k == "ref" and n.x[0] == "p" and "bool" in (n.type or "") and ("p", f.key, n.x[1]) not in seen:
        names = [p[0] for p in f.params]
        acc = None
        for c in prog.callers.get(f.key, ()) if n.x[1] in names else ():
            g = prog.F[c]
            for x in g.walk():
                if x.is_call() and any((t2 if isinstance(t2, str) else t2.key) == f.key for t2 in prog.targets(x)):
                    a = x.args()
                    i = names.index(n.x[1])
                    if i >= len(a):
                        acc = set()
                        continue
                    v = strip(a[i])
                    if v.k == "bool" and bool(v.x[0]) != truth:
                        continue
                    r = leaf(prog, g, v, truth, status, seen | {("p", f.key, n.x[1])})
                    acc = r if acc is None else acc & r
        out |= acc or set()
    if n.is_call() and n.k != "ocall":
        m = n.mname or ""
        if m == "stopped" and not truth:
            out.add("notstopped")
        if m in ("getNCols", "getNColsModel") and not truth and status == "OPT":
            out.add("proof")  # no variables: nothing is left to be decided
        if truth and m == "failed" and status == "UNSAT":
            out.add("proof")
        if truth and m.startswith("isProven") and says(m[8:].replace("Primal", ""), status):
            out.add("proof")
    if exhausted(prog, f, n, truth):
        out.add("nomore")
    t = null_test(n, truth)
    if t and t[1] and from_next(prog, f, t[0]):
        out.add("nosolution")
    if n.k == "bin" and n.x[0] in ("==", "!=") and (n.x[0] == "==") == truth:
        for a in n.c:
            if strip(a).k == "ref" and strip(a).x[0] in ("e", "g"):
                nms = names_of(f, a)
            elif strip(a).k in ("int", "un"):
                # a macro: several of one library on these lines must all say the same
                nms = names_of(f, n)
                pre = set(x.split("_")[0] for x in nms if says(x, status))
                nms = set(x for x in nms if x.split("_")[0] in pre)
            else:
                continue
            if nms and all(says(nm, status) for nm in nms):
                out.add("proof")
    if n.k == "bin" and status == "OPT" and n.x[0] in ("==", "<=") and truth or n.k == "bin" and n.x[0] in ("!=", ">") and not truth:
        for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
            if strip(a).is_call() and strip(a).mname in ("getNCols", "getNColsModel") and num(b, "", 0) == 0 and status == "OPT":
                out.add("proof")
    if status == "UNSAT" and n.k == "bin" and truth and n.x[0] in (">", "<"):
        # the bounds of a variable are empty, or the constant side of a constraint without variables is violated
        l, r = strip(n.c[0]), strip(n.c[1])
        if all(x.k in ("ref", "mem") for x in (l, r)):
            out.add("proof")
    if status == "UNSAT" and truth and n.k == "mcall" and n.mname == "empty":
        out.add("proof")
    return out


def produced(n):
    """is the enumerator used as a value that goes somewhere (not compared, not a label)?"""
    p = n.p
    c = n
    while p is not None:
        if p.k in ("icast", "cast", "paren", "?:", "ctor", "init"):
            if p.k == "?:" and p.c and p.c[0] is c:
                return False
            c, p = p, p.p
            continue
        break
    if p is None:
        return False
    if p.k == "bin":
        return p.x[0] == "=" and p.c[1] is c
    if p.k == "ocall":
        return p.mname == "operator=" and p.c[-1] is c
    if p.k in ("return", "var", "decl"):
        return True
    if p.k in ("call", "mcall"):
        return any(a is c for a in p.args())
    return False


def status_sites(ctx):
    prog = ctx.prog
    enums = {}
    for q, e in prog.E.items():
        vals = set(v[0].split("::")[-1] for v in e["vals"])
        if {"OPT", "SAT", "UNSAT", "UNBND", "UNSATorUNBND", "UNKNOWN"} <= vals:
            for v in e["vals"]:
                enums[v[0]] = q
    ctx.check(bool(enums), "status-enums", "include/minizinc/solver_instance_base.hh", "no enumeration of solver statuses found")
    done = set()
    for f in prog.F.values():
        if f.body is None or f.cfg is None or "thirdparty" in f.file:
            continue
        oc = None
        for n in f.walk():
            if n.k != "ref" or n.x[0] != "e" or str(n.x[1] if "::" in str(n.x[1]) else n.x[2]) not in enums:
                continue
            name = str(n.x[1]).split("::")[-1]
            if not produced(n):
                continue
            loc = f.loc(n)
            if (loc, name) in done:
                continue
            done.add((loc, name))
            ctx.count("places that produce a status")
            if name not in STRONG:
                continue
            ctx.count("places that produce a conclusive status")
            if f.q.endswith("::createInputMap"):
                ctx.ok()
                continue
            if oc is None:
                oc = Outcomes(prog, f)
            ok, ev, why = established(prog, f, n, name, oc.state(n))
            if not ok:
                up = callers_evidence(prog, f, name)
                ok = enough(ev | up, name)
            if not ok:
                ok = later(prog, f, oc, n, name)
            ctx.check(ok, "status:%s:%s" % (f.q, name), loc,
                      "%s is reported, but no condition on every path to this place establishes it (found: %s)%s" % (name, ", ".join(sorted(ev)) or "nothing", why),
                      None)


def established(prog, f, n, name, state):
    facts, sw = state
    ev = set()
    for i, truth in facts:
        ev |= leaf(prog, f, f.nodes[i], truth, name, frozenset())
    if name == "UNSAT" and static_infeasible(f, facts):
        ev.add("proof")
    why = ""
    for s, labs in sw.items():
        swn = f.nodes[s]
        if not inside(n, swn):
            continue
        good = []
        for l in labs:
            if l == "default":
                good.append(False)
                continue
            good.append(any(says(x, name) for x in names_of(f, f.nodes[l])))
        if good and all(good):
            ev.add("proof")
        elif good:
            why = "; the labels leading here include %s" % ", ".join(sorted("default" if l == "default" else "/".join(sorted(names_of(f, f.nodes[l])))
                                                                             for l, g in zip(labs, good) if not g)[:3])
    return enough(ev, name), ev, why


def enough(ev, name):
    return "proof" in ev or ("notstopped" in ev and (name == "OPT" and "nomore" in ev or name == "UNSAT" and "nosolution" in ev))


def callers_evidence(prog, f, name):
    """what is established at every call of the function"""
    acc = None
    for c in prog.callers.get(f.key, ()):
        g = prog.F[c]
        if g.cfg is None:
            return set()
        oc = None
        for x in g.walk():
            if x.is_call() and any((t if isinstance(t, str) else t.key) == f.key for t in prog.targets(x)):
                oc = oc or Outcomes(prog, g)
                ev = established(prog, g, x, name, oc.state(x))[1]
                acc = ev if acc is None else acc & ev
    return acc or set()


def later(prog, f, oc, n, name):
    """the status is only put into a local variable: is it established wherever that value is used?"""
    p, c = n.p, n
    while p is not None and p.k in ("icast", "cast", "paren"):
        c, p = p, p.p
    var = None
    if p is not None and p.k == "var" and len(p.x) > 1:
        var = p.x[1]
    elif p is not None and p.k == "bin" and p.x[0] == "=" and p.c[1] is c and strip(p.c[0]).k == "ref" and strip(p.c[0]).x[0] == "v":
        var = strip(p.c[0]).x[2]
    if var is None or any(x.k == "un" and x.x[0] == "&" and strip(x.c[0]).k == "ref" and strip(x.c[0]).x[0] == "v" and strip(x.c[0]).x[2] == var for x in f.walk()):
        return False
    where = None
    for b in f.cfg.values():
        for pos, el in enumerate(b.elems):
            if not isinstance(el, list) and inside(f.nodes[el], p) and (f.nodes[el] is p or where is None):
                where = (b.id, pos)
            elif not isinstance(el, list) and f.nodes[el].k == "decl" and inside(p, f.nodes[el]):
                where = (b.id, pos)
    if where is None:
        return False
    st = oc.state(p)
    o2 = Outcomes(prog, f, (where[0], where[1], st[0], st[1], var))
    uses = 0
    for x in f.walk():
        if x.k == "ref" and x.x[0] == "v" and x.x[2] == var:
            if x.p is not None and x.p.k == "bin" and x.p.x[0] == "=" and x.p.c[0] is x:
                continue
            if x.id not in o2.at:
                q = x
                while q is not None and q.id not in o2.at:
                    q = q.p
                    if q is not None and q.k in ("{", "if", "while", "for", "do", "switch", "case", "fn", "ret", "return"):
                        break
                if q is None or q.id not in o2.at:
                    continue
            uses += 1
            if not established(prog, f, x, name, o2.state(x))[0]:
                return False
    return uses > 0


def inside(n, anc):
    while n is not None:
        if n is anc:
            return True
        n = n.p
    return False


# ---------------------------------------------------------------- texts of statuses

def option_texts(ctx):
    """text members of the output options: name -> literal text (a name refers to another member)"""
    prog = ctx.prog
    out = {}
    for q, c in prog.C.items():
        if not q.endswith("Solns2Out::Options"):
            continue
        f = c.get("f") or "include/minizinc/solns2out.hh"
        lines = open(os.path.join(REPO, "include/minizinc/solns2out.hh"), errors="replace").read().split("\n")
        for fl in c["fields"]:
            if "char" not in fl[1]:
                continue
            txt = " ".join(lines[fl[2] - 1:fl[2] + 3])
            m = re.search(r"\b%s\s*[={(]\s*(\"((?:[^\"\\]|\\.)*)\"|\w+)" % re.escape(fl[0]), txt)
            if m:
                out[fl[0]] = (m.group(2) if m.group(1).startswith('"') else None, m.group(1), "include/minizinc/solns2out.hh:%d" % fl[2])
    return out


def resolve(texts, name, depth=0):
    if name not in texts or depth > 4:
        return None
    lit, ref, _ = texts[name]
    return lit if lit is not None else resolve(texts, ref, depth + 1)


def opt_member(n):
    return n.k == "mem" and str(n.x[1]).rsplit("::", 1)[0].endswith("Solns2Out::Options")


def switch_labels(oc, n):
    """[names of the labels by which the innermost switch around n is entered], or None"""
    facts, sw = oc.state(n)
    best = None
    for s, labs in sw.items():
        swn = oc.fn.nodes[s]
        if inside(n, swn) and (best is None or inside(swn, oc.fn.nodes[best[0]])):
            best = (s, labs)
    if best is not None:
        return [None if l == "default" else frozenset(names_of(oc.fn, oc.fn.nodes[l])) for l in best[1]]
    for i, truth in facts:
        c = strip(oc.fn.nodes[i])
        if c.k == "bin" and (c.x[0] == "==") == truth and c.x[0] in ("==", "!="):
            for a in c.c:
                a = strip(a)
                if a.k == "ref" and a.x[0] == "e":
                    return [frozenset([str(a.x[1]).split("::")[-1]])]
    return None


def texts(ctx):
    prog = ctx.prog
    opts = option_texts(ctx)
    ctx.count("texts of the output options", len(opts))
    # text -> status, as recognised in a solver's output
    inmap = {}
    for f in prog.F.values():
        if f.body is None or not (f.cls or "").endswith("Solns2Out"):
            continue
        for n in f.walk():
            if n.k != "ref" or n.x[0] != "e" or not re.search(r"SolverInstance(Base)?::\w+$", str(n.x[2])):
                continue
            # the enclosing assignment / call / initialiser that also names a text member
            p = n.p
            mems = []
            while p is not None and p.k not in ("{", "if", "switch", "case", "fn") and not mems:
                mems = [x for x in _walk(p) if opt_member(x)]
                top, p = p, p.p
            while mems and top.p is not None and top.p.k not in ("{", "if", "switch", "case", "fn"):
                top = top.p
            into = any((x.type or "") and "map<" in x.type for x in (_walk(top) if mems else ()))
            if mems and into:
                st = str(n.x[1]).split("::")[-1]
                for m in mems:
                    inmap.setdefault(m.x[0], set()).add((st, f.loc(n)))
    ctx.count("texts recognised as a status", len(inmap))
    byval = {}
    for t, sts in sorted(inmap.items()):
        loc = sorted(sts)[0][1]
        v = resolve(opts, t)
        if v is None:
            ctx.skip("text of %s not found" % t)
            continue
        ctx.check(len(set(s for s, _ in sts)) == 1, "text-ambiguous:" + t, loc, "the text %r is recognised as several statuses: %s" % (v, ", ".join(sorted(s for s, _ in sts))))
        ctx.check(v.strip() != "", "text-empty:" + t, loc, "the text recognised as a status is empty")
        for s, _ in sts:
            if v in byval and byval[v][0] != s:
                ctx.bad("text-shared:" + t, loc, "the text %r stands for %s (%s) and %s (%s)" % (v, s, t, byval[v][0], byval[v][1]))
            else:
                ctx.ok()
                byval[v] = (s, t)
    # what is printed for a status
    printed = 0
    labels = {}
    for f in prog.F.values():
        if f.body is None or f.cfg is None or not (f.cls or "").endswith("Solns2Out"):
            continue
        oc = None
        for n in f.walk():
            istxt = opt_member(n) and "string" in (n.type or "") and n.x[0] in opts and opts[n.x[0]][0] is None
            isstr = n.k == "str" and re.match(r"^[A-Z]+(_[A-Z]+)*$", str(n.x[0])) is not None
            if not (istxt or isstr):
                continue
            if not any(x.k == "case" for x in f.walk()) and not istxt:
                continue
            if n.p is not None and n.p.k == "mcall" and n.p.mname in ("empty", "size", "length"):
                continue
            q = n
            while q is not None and q.k not in ("bin", "ocall", "return", "var", "call", "mcall", "{"):
                q = q.p
            if q is None or q.k not in ("bin", "ocall", "return", "var") or q.k == "bin" and q.x[0] != "=":
                continue
            if q.k == "ocall" and q.mname not in ("operator=", "operator<<", "operator+="):
                continue
            if q.k in ("bin", "ocall") and inside(n, q.c[0]) and q.c[0] is not q:
                continue
            if oc is None:
                oc = Outcomes(prog, f)
            labs = switch_labels(oc, n)
            if labs is None:
                continue
            stn = set()
            for l in labs:
                stn |= set(x for x in (l or ()) if x in ALLSTATUS)
            if not stn:
                continue
            if istxt:
                printed += 1
                v = resolve(opts, n.x[0])
                for s in stn:
                    good = v in byval and byval[v][0] == s
                    ctx.check(good, "text-printed:%s:%s" % (s, n.x[0]), f.loc(n),
                              "for the status %s the text %r is printed, which is recognised as %s" % (s, v, byval.get(v, ("no status",))[0]))
            else:
                for s in stn:
                    labels.setdefault(str(n.x[0]), {}).setdefault(s, f.loc(n))
    ctx.count("places printing the text of a status", printed)
    for l, ss in sorted(labels.items()):
        ctx.check(len(ss) == 1, "label-shared:" + l, sorted(ss.values())[0], "the label %r of the JSON stream stands for %s" % (l, " and ".join(sorted(ss))))
        for s in ss:
            want = LABEL.get(s)
            if want:
                ctx.check(re.search(want, l) is not None, "label-wrong:%s:%s" % (s, l), ss[s], "the label %r is printed for the status %s" % (l, s))
    ctx.count("labels of the JSON stream", len(labels))
    # what wrappers feed as a solver's text
    for f in prog.F.values():
        if f.body is None or f.cfg is None or (f.cls or "").endswith("Solns2Out") and not (f.cls or "").endswith("NLSolns2Out"):
            continue
        if "/nl/" not in f.file:
            continue
        oc = None
        for n in f.walk():
            if not opt_member(n) or n.x[0] not in NLTEXT:
                continue
            if oc is None:
                oc = Outcomes(prog, f)
            labs = switch_labels(oc, n)
            if labs is None:
                ctx.skip("%s: status of an NL solver under which %s is fed not understood" % (f.loc(n), n.x[0]))
                continue
            ctx.count("texts fed for results of NL solvers")
            bad = sorted("default" if l is None else "/".join(sorted(l)) for l in labs if l is None or not l & NLTEXT[n.x[0]])
            ctx.check(not bad, "nl-text:%s:%s" % (f.q, n.x[0]), f.loc(n), "%r is fed for the result %s of an NL solver" % (resolve(opts, n.x[0]), ", ".join(bad)))
            if n.x[0] == "searchCompleteMsgDef":
                facts, _ = oc.state(n)
                optim = any(any(x.is_call() and x.mname == "isOptimisation" for x in _walk(f.nodes[i])) and truth_of(f.nodes[i], "isOptimisation", t) for i, t in facts)
                ctx.check(optim, "nl-complete:%s" % f.q, f.loc(n), "a solved satisfaction problem is reported as completely searched")


ALLSTATUS = ("OPT", "SAT", "UNSAT", "UNBND", "UNSATorUNBND", "UNKNOWN", "ERROR")
LABEL = {"OPT": r"OPTIMAL|ALL_SOL|COMPLETE", "UNSAT": r"^UNSATISFIABLE$|^INFEASIBLE$", "UNBND": r"^UNBOUNDED$", "UNSATorUNBND": r"UNSAT.*UNB|UNB.*UNSAT", "UNKNOWN": r"UNKNOWN",
         "ERROR": r"ERROR"}


def truth_of(n, mname, truth):
    n = strip(n)
    if n.k == "un" and n.x[0] == "!":
        return truth_of(n.c[0], mname, not truth)
    if n.k == "bin" and n.x[0] in ("&&", "||"):
        rs = [truth_of(c, mname, truth) for c in n.c]
        return any(rs) if (n.x[0] == "&&") == truth else all(rs)
    return n.is_call() and n.mname == mname and truth


# ---------------------------------------------------------------- result codes of NL solvers

def value(n, var, x):
    """three-valued evaluation of a condition for the result code x"""
    n = strip(n)
    if n.k == "un" and n.x[0] == "!":
        v = value(n.c[0], var, x)
        return None if v is None else not v
    if n.k == "bin" and n.x[0] in ("&&", "||"):
        a, b = value(n.c[0], var, x), value(n.c[1], var, x)
        if n.x[0] == "&&":
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    if n.k == "bin" and n.x[0] in ("<", "<=", ">", ">=", "==", "!="):
        l, r = num(n.c[0], var, x), num(n.c[1], var, x)
        if l is None or r is None:
            return None
        return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r, "==": l == r, "!=": l != r}[n.x[0]]
    return None


def num(n, var, x):
    n = strip(n)
    if n.k == "int":
        return int(n.x[0])
    if n.k == "un" and n.x[0] == "-":
        v = num(n.c[0], var, x)
        return None if v is None else -v
    if n.k == "ref" and n.x[0] in ("v", "p") and n.x[1] == var:
        return x
    if n.k == "bin" and n.x[0] in ("/", "-", "+", "*", "%"):
        a, b = num(n.c[0], var, x), num(n.c[1], var, x)
        if a is None or b is None or n.x[0] in ("/", "%") and b == 0:
            return None
        return {"/": lambda: int(a / b), "-": lambda: a - b, "+": lambda: a + b, "*": lambda: a * b, "%": lambda: int(a - int(a / b) * b)}[n.x[0]]()
    return None


def nlcodes(ctx):
    prog = ctx.prog
    members = set()
    for e in prog.E.values():
        vs = [str(v[0]) for v in e["vals"]]
        if {"SOLVED", "INFEASIBLE", "UNBOUNDED"} <= set(v.split("::")[-1] for v in vs):
            members |= set(v.split("::")[-1] for v in vs)
    for f in prog.F.values():
        if f.body is None or f.cfg is None or "/nl/" not in f.file:
            continue
        oc = None
        for n in f.walk():
            if n.k != "ref" or n.x[0] != "e" or str(n.x[1]).split("::")[-1] not in members or "SolverInstance" in str(n.x[2]) or not produced(n):
                continue
            name = str(n.x[1]).split("::")[-1]
            if oc is None:
                oc = Outcomes(prog, f)
            facts, sw = oc.state(n)
            conds = [(f.nodes[i], t) for i, t in facts]
            vars_ = {}
            for c, t in conds:
                for x in _walk(c):
                    if x.k == "bin" and x.x[0] in ("<", "<=", ">", ">=", "==", "!="):
                        for a, b in ((x.c[0], x.c[1]), (x.c[1], x.c[0])):
                            if num(b, "", 0) is not None:
                                for y in _walk(a):
                                    if y.k == "ref" and y.x[0] in ("v", "p") and (y.type or "").replace("const ", "") in ("int", "long", "long long"):
                                        vars_[y.x[1]] = vars_.get(y.x[1], 0) + 1
            if name not in ("SOLVED", "INFEASIBLE", "UNBOUNDED"):
                ctx.count("result codes of NL solvers without a claim")
                continue
            ctx.count("conclusive result codes of NL solvers")
            lo, hi = NLCODES[name]
            sws = []
            for sid, labs in sw.items():
                swn = f.nodes[sid]
                if inside(n, swn) and swn.c[2] is not None:
                    sws.append((swn.c[2], labs))
                    for y in _walk(swn.c[2]):
                        if y.k == "ref" and y.x[0] in ("v", "p") and (y.type or "").replace("const ", "") in ("int", "long", "long long"):
                            vars_[y.x[1]] = vars_.get(y.x[1], 0) + 1
            if not vars_:
                ctx.bad("nl-code:%s" % name, f.loc(n), "the result %s of an NL solver is assumed without looking at its result code" % name)
                continue
            var = max(vars_, key=lambda v: vars_[v])
            wrong = [x for x in range(-10, 1000) if not lo <= x <= hi and all(value(c, var, x) in (None, t) for c, t in conds) and
                     all("default" in labs or num(c, var, x) is None or num(c, var, x) in [f.nodes[l].x[0] for l in labs] for c, labs in sws)]
            ctx.check(not wrong, "nl-code:%s" % name, f.loc(n), "an NL solver's result code %s is taken for %s, which the format defines for %d to %d only" % (
                "%d to %d" % (wrong[0], wrong[-1]) if len(wrong) > 1 else str(wrong[:1]), name, lo, hi))


# ---------------------------------------------------------------- solver processes that failed

def processes(ctx):
    prog = ctx.prog
    for f in prog.F.values():
        if f.body is None or f.cfg is None or "thirdparty" in f.file:
            continue
        runs = [n for n in f.walk() if n.is_call() and n.k == "mcall" and n.mname == "run" and "Process<" in str(n.x[2])]
        if not runs:
            continue
        res = set()
        for r in runs:
            ctx.count("solver processes run")
            p, c = r.p, r
            while p is not None and p.k in ("icast", "cast", "paren"):
                c, p = p, p.p
            if p is not None and p.k == "var":
                res.add(p.x[0])
            elif p is not None and p.k == "bin" and p.x[0] == "=" and strip(p.c[0]).k == "ref":
                res.add(strip(p.c[0]).x[1])
        oc = Outcomes(prog, f)
        for n in f.walk():
            if n.k == "mem" and str(n.x[1]).endswith("Solns2Out::status") and not (n.p is not None and n.p.k == "bin" and n.p.x[0] == "=" and n.p.c[0] is n):
                ctx.count("statuses taken over from a solver process")
                facts, _ = oc.state(n)
                ok = any(zero(f, f.nodes[i], t, res) for i, t in facts)
                ctx.check(ok, "process:%s" % f.q, f.loc(n), "the status read from a solver process is returned although the process may have failed (its result is not known to be 0 here)")


def zero(f, n, truth, names):
    n = strip(n)
    if n.k == "un" and n.x[0] == "!":
        return zero(f, n.c[0], not truth, names)
    if n.k == "bin" and n.x[0] in ("&&", "||"):
        rs = [zero(f, c, truth, names) for c in n.c]
        return any(rs) if (n.x[0] == "&&") == truth else all(rs)
    if n.k == "bin" and n.x[0] in ("==", "!="):
        for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
            if num(b, "", 0) == 0 and (n.x[0] == "==") == truth:
                a = strip(a)
                if a.k == "ref" and a.x[1] in names or a.is_call() and a.mname == "run":
                    return True
        return False
    if n.k == "ref" and n.x[1] in names:
        if "bool" in (n.type or ""):
            return False
        return not truth
    if n.k == "ref" and n.x[0] == "v" and "bool" in (n.type or ""):
        d = [x.c[0] for x in f.walk() if x.k == "var" and len(x.x) > 1 and x.x[1] == n.x[2] and x.c]
        return len(d) == 1 and zero(f, d[0], truth, names)
    return n.is_call() and n.mname == "run" and not truth


def static_infeasible(f, facts):
    """all the constants that a constraint's arguments evaluate to have been compared"""
    vals = set()
    for x in f.walk():
        if x.k == "bin" and x.x[0] == "=" and strip(x.c[0]).k == "ref" and strip(x.c[1]).is_call() and strip(x.c[1]).mname == "exprToConst":
            vals.add(strip(x.c[0]).x[2])
        if x.k == "var" and x.c and strip(x.c[0]).is_call() and strip(x.c[0]).mname == "exprToConst":
            vals.add(x.x[1])
    if not vals:
        return False
    seen = set()
    for i, t in facts:
        for x in _walk(f.nodes[i]):
            if x.k == "bin" and x.x[0] in ("<", ">", "<=", ">=", "!=", "=="):
                seen |= set(y.x[2] for y in _walk(x) if y.k == "ref" and y.x[0] == "v")
    return vals <= seen


def check(ctx):
    status_sites(ctx)
    texts(ctx)
    nlcodes(ctx)
    processes(ctx)
    ctx.need("places that produce a conclusive status", 30)
    if ctx.counts.get("texts recognised as a status", 0) < 4:
        ctx.skip("the table of texts recognised as a status was not found")
    ctx.need("places printing the text of a status", 5)
    ctx.need("labels of the JSON stream", 5)
    ctx.need("texts fed for results of NL solvers", 6)
    ctx.need("conclusive result codes of NL solvers", 3)
    ctx.need("statuses taken over from a solver process", 2)
