"""C09: the code of a built-in function fits the signatures it is registered for.

The registration code is interpreted to obtain, for every evaluator function, the set of signatures (arity and argument
kinds) it serves. A branch-sensitive analysis of the evaluator and of the helpers it hands the call or an argument to
carries the subset of signatures still possible at each point (tests of the argument count and of the kind of an argument
narrow it). Obligations: every argument position read exists in every signature still possible, every declared position is
read on some path, and a value evaluated as a
bool/int/float/string/set/array is declared as that kind by every signature still possible."""
import re

from ..builtins import table
from ..facts import AnalysisError, last_name
from ..flow import strip

EXPLANATION = ("The table of built-ins is read off the registration code (interpreted abstractly); each evaluator and its helpers are "
               "analysed with the set of signatures as dataflow state. Every use of an argument position and every typed "
               "evaluation of an argument, or of an element of an array argument, is one obligation per evaluator.")

# typed evaluation -> (dim is zero, set type, base types accepted)
EVALS = {
    "MiniZinc::eval_int": (0, "PLAIN", ("INT", "BOOL")),
    "MiniZinc::eval_bool": (0, "PLAIN", ("BOOL",)),
    "MiniZinc::eval_float": (0, "PLAIN", ("FLOAT", "INT", "BOOL")),
    "MiniZinc::eval_string": (0, "PLAIN", ("STRING",)),
    "MiniZinc::eval_intset": (0, "SET", ("INT", "BOOL")),
    "MiniZinc::eval_boolset": (0, "SET", ("BOOL", "INT")),
    "MiniZinc::eval_floatset": (0, "SET", ("FLOAT", "INT", "BOOL")),
    "MiniZinc::eval_array_lit": (1, None, None),
}
# conversions of the constraint posters: (array?, set type, base types)
CONV = {
    "arg2intvar": (0, "PLAIN", ("INT",)), "arg2boolvar": (0, "PLAIN", ("BOOL",)), "arg2floatvar": (0, "PLAIN", ("FLOAT",)),
    "arg2setvar": (0, "SET", ("INT",)), "arg2intset": (0, "SET", ("INT",)),
    "arg2intargs": (1, "PLAIN", ("INT",)), "arg2boolargs": (1, "PLAIN", ("BOOL",)),
    "arg2intvarargs": (1, "PLAIN", ("INT",)), "arg2boolvarargs": (1, "PLAIN", ("BOOL",)),
    "arg2floatargs": (1, "PLAIN", ("FLOAT",)), "arg2floatvarargs": (1, "PLAIN", ("FLOAT",)),
    "arg2intsetargs": (1, "SET", ("INT",)), "arg2setvarargs": (1, "SET", ("INT",)), "arg2arraylit": (1, None, None),
    "exprToArray": (1, None, None), "exprToVarArray": (1, None, None), "exprToVar": (0, "PLAIN", ("INT", "BOOL", "FLOAT")),
    "exprToConst": (0, "PLAIN", ("INT", "BOOL", "FLOAT")),
}
CASTS = {"IntLit": (0, "PLAIN", ("INT",)), "BoolLit": (0, "PLAIN", ("BOOL",)), "FloatLit": (0, "PLAIN", ("FLOAT",)),
         "StringLit": (0, "PLAIN", ("STRING",)), "SetLit": (0, "SET", ("INT", "FLOAT", "BOOL")), "ArrayLit": (1, None, None)}
LIT = re.compile(r"\b(IntLit|BoolLit|FloatLit|StringLit|SetLit|ArrayLit)\b")
# built-ins that answer from the state of the compiler and take an argument only to select an overload
IGNORES = ("mzn_in_root_context", "outputJSON")
LOOSE = ("TOP", "BOT", "UNK", "ANY")
RETS = {"IntVal": "int", "bool": "bool", "FloatVal": "float", "IntSetVal *": "set of int", "FloatSetVal *": "set of float",
        "std::string": "string"}


class Fn(object):
    """one function analysed with a frame (parameter index -> abstract value) and a set of signatures"""

    def __init__(self, an, fn, frame, sigs):
        self.an, self.fn, self.frame, self.all = an, fn, frame, sigs
        self.defs = {}
        for n in fn.walk():
            if n.k == "var":
                self.defs.setdefault(("v", n.x[1]), []).append(n.c[0] if n.c else None)
            l = None
            if n.k == "bin" and n.x[0].endswith("=") and n.x[0] not in ("==", "!=", "<=", ">="):
                l = strip(n.c[0])
                r = n.c[1] if n.x[0] == "=" else None
            elif n.k == "un" and ("++" in str(n.x[0]) or "--" in str(n.x[0]) or n.x[0] == "&"):
                l, r = strip(n.c[0]), None
            elif n.k == "ocall" and last_name(n.cq or "") in ("operator=", "operator++", "operator--", "operator+="):
                l, r = strip(n.c[0]), None
            if l is not None and l.k == "ref" and l.x[0] in ("v", "p"):
                self.defs.setdefault((l.x[0], l.x[2]), []).append(r)

    # abstract values: int/bool, ("call",), ("arg",k), ("elem",k), ("type",Ty), ("arr",k) or None
    def ev(self, n, sig, depth=0):
        if n is None or depth > 12:
            return None
        n = strip(n)
        k = n.k
        if k in ("int", "bool"):
            return n.x[0]
        if k in ("cast", "icast", "darg") and n.c:
            return self.ev(n.c[0], sig, depth + 1)
        if k == "ref":
            if n.x[0] == "e" and len(n.x) > 3:
                return ("enum", n.x[1])
            if n.x[0] == "p":
                v = self.frame.get(n.x[2])
                return v if not self.defs.get(("p", n.x[2])) else None
            if n.x[0] == "v":
                d = self.defs.get(("v", n.x[2]), [])
                if len(d) == 1 and d[0] is not None:
                    return self.ev(d[0], sig, depth + 1)
            return None
        if n.is_call():
            q = n.cq or ""
            nm = last_name(q)
            if k == "ctor" and q == "MiniZinc::Type::Type" and len(n.c) == 1:
                return self.ev(n.c[0], sig, depth + 1)
            if k == "mcall":
                b = self.ev(n.c[0], sig, depth + 1)
                if b == ("call",):
                    if nm == "argCount":
                        return len(sig.tys)
                    if nm == "arg" and len(n.c) > 1:
                        i = self.ev(n.c[1], sig, depth + 1)
                        if isinstance(i, int):
                            return ("arg", i)
                    return None
                if isinstance(b, tuple) and b[0] == "type":
                    return self.typetest(nm, b[1])
                if isinstance(b, tuple) and b[0] == "arr" and nm in ("v",):
                    return b
            if k in ("call", "mcall") and q == "MiniZinc::Expression::type" and n.c:
                e = self.ev(n.c[0], sig, depth + 1)
                t = self.tyof(e, sig)
                return ("type", t) if t is not None else None
            if k == "call" and nm in ("eval_par", "follow_id", "follow_id_to_value", "follow_id_to_decl", "flat_cv_exp") and n.c:
                for c in n.c:
                    v = self.ev(c, sig, depth + 1)
                    if isinstance(v, tuple) and v[0] in ("arg", "elem"):
                        return v
            if q == "MiniZinc::eval_array_lit" and len(n.c) > 1:
                v = self.ev(n.c[1], sig, depth + 1)
                if isinstance(v, tuple) and v[0] == "arg":
                    return ("arr", v[1])
            if k == "ocall" and nm == "operator[]" and len(n.c) == 2:
                v = self.ev(n.c[0], sig, depth + 1)
                if isinstance(v, tuple) and v[0] == "arr":
                    return ("elem", v[1])
            return None
        if k == "un" and n.x[0] == "*":
            return self.ev(n.c[0], sig, depth + 1)
        if k == "un" and n.x[0] == "!":
            v = self.ev(n.c[0], sig, depth + 1)
            return (not v) if isinstance(v, (int, bool)) else None
        if k == "bin" and len(n.c) == 2:
            a, b = self.ev(n.c[0], sig, depth + 1), self.ev(n.c[1], sig, depth + 1)
            o = n.x[0]
            if o == "&&":
                if a is not None and not a or b is not None and not b:
                    return False
                return True if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) else None
            if o == "||":
                if isinstance(a, (int, bool)) and a or isinstance(b, (int, bool)) and b:
                    return True
                return False if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) else None
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "enum" and o in ("==", "!="):
                return (last_name(a[1]) == last_name(b[1])) == (o == "==")
            if b == ("anydim",):
                a, b, o = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            if a == ("anydim",):
                # an array of any number of dimensions
                return {"==": False, "!=": True, ">": True}.get(o) if b == 0 else \
                    {">=": True, "<": False}.get(o) if b == 1 else None
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                try:
                    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b,
                            "+": a + b, "-": a - b, "*": a * b}[o]
                except KeyError:
                    return None
        if k == "cond" and len(n.c) == 3:
            c = self.ev(n.c[0], sig, depth + 1)
            if isinstance(c, (int, bool)):
                return self.ev(n.c[1 if c else 2], sig, depth + 1)
            a, b = self.ev(n.c[1], sig, depth + 1), self.ev(n.c[2], sig, depth + 1)
            return a if a == b else None
        return None

    @staticmethod
    def tyof(e, sig):
        if not isinstance(e, tuple) or e[0] not in ("arg", "elem") or not 0 <= e[1] < len(sig.tys):
            return None
        t = sig.tys[e[1]]
        if e[0] == "elem":
            if t.dim == 0:
                return None
            t = t.copy()
            t.dim = 0
        return t

    @staticmethod
    def typetest(nm, t):
        """what a test of the type says when the declared type is t; None if the actual type may differ"""
        loose = t.bt in LOOSE
        st = None if loose and t.st == "PLAIN" else t.st
        if nm == "dim":
            return t.dim if t.dim >= 0 else ("anydim",)
        if nm == "st":
            return ("enum", "ST_" + st) if st else None
        if nm == "bt":
            return ("enum", "BT_" + t.bt) if not loose else None
        if nm == "isSet" or nm == "isset":
            if t.dim != 0:
                return False
            return st == "SET" if st else None
        if nm == "isOpt":
            return False if t.ot == "PRESENT" and not loose else None
        m = {"isint": "INT", "isbool": "BOOL", "isfloat": "FLOAT", "isstring": "STRING", "isvarint": "INT",
             "isvarbool": "BOOL", "isvarfloat": "FLOAT"}.get(nm)
        if m:
            if t.dim != 0 or t.st == "SET":
                return False
            if loose:
                return None
            if t.st != "PLAIN" or t.bt != m:
                return False
            return True if t.ot == "PRESENT" and not nm.startswith("isvar") else None
        return None

    def run(self):
        fn = self.fn
        bl = fn.cfg
        if not bl:
            return
        IN = {fn.entry: frozenset(self.all)}
        work = [fn.entry]
        while work:
            b = work.pop()
            for i, s in enumerate(bl[b].succs):
                if s < 0:
                    continue
                out = self.edge(bl, bl[b], i, IN[b])
                if s not in IN or not out <= IN[s]:
                    IN[s] = IN.get(s, frozenset()) | out
                    work.append(s)
        self.bounds = {}
        done = set()
        for b, st in IN.items():
            if not st:
                continue
            for el in bl[b].elems:
                if isinstance(el, list):
                    continue
                n = fn.nodes[el]
                if n.is_call():
                    self.use(n, st)

    def edge(self, bl, b, i, st):
        t = b.term
        if not t or t[2] < 0 or not st:
            return st
        kind, tid, cid = t
        cond = self.fn.nodes[cid]
        if kind == "SwitchStmt":
            s = bl[b.succs[i]]
            vals = {}
            for x in b.succs:
                if x >= 0 and bl[x].label >= 0:
                    ln = self.fn.nodes[bl[x].label]
                    if ln.k == "case":
                        vals[x] = ln.x[0]
            out = set()
            for sg in st:
                v = self.ev(cond, self.an.sigs[sg])
                if isinstance(v, tuple) and v[0] == "enum":
                    v = self.an.enumval(v[1])
                if not isinstance(v, (int, bool)) or isinstance(v, tuple):
                    out.add(sg)
                    continue
                if s.id in vals:
                    if vals[s.id] is None or int(v) == vals[s.id]:
                        out.add(sg)
                elif int(v) not in [w for w in vals.values() if w is not None]:
                    out.add(sg)
            return frozenset(out)
        if len(b.succs) == 2 and kind in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "ConditionalOperator", "BinaryOperator"):
            out = set()
            for sg in st:
                v = self.ev(cond, self.an.sigs[sg])
                if isinstance(v, (int, bool)) and not isinstance(v, tuple) and kind != "ForStmt" and bool(v) != (i == 0):
                    continue
                out.add(sg)
            return frozenset(out)
        return st

    def irange(self, n, sig):
        """inclusive bounds of an index expression, or None"""
        v = self.ev(n, sig)
        if isinstance(v, (int, bool)):
            return (int(v), int(v))
        n0 = strip(n)
        while n0.k in ("cast", "icast") and n0.c:
            n0 = strip(n0.c[0])
        if n0.k == "bin" and n0.x[0] in ("+", "-"):
            a, b = self.irange(n0.c[0], sig), self.irange(n0.c[1], sig)
            if a and b:
                return (a[0] + b[0], a[1] + b[1]) if n0.x[0] == "+" else (a[0] - b[1], a[1] - b[0])
            return None
        if n0.k != "ref" or n0.x[0] != "v":
            return None
        for a in n0.ancestors():
            if a.k == "for" and a.c[0] is not None and a.c[2] is not None:
                init = strip(a.c[0])
                var = None
                if init.k == "decl":
                    for v in init.c:
                        if v.x[1] == n0.x[2] and v.c:
                            var = v.c[0]
                if var is None:
                    continue
                writes = [d for d in self.defs.get(("v", n0.x[2]), [])]
                if len(writes) != 2:
                    return None
                lo = self.ev(var, sig)
                c = strip(a.c[2])
                inc = str(strip(a.c[3]).x) if a.c[3] is not None else ""
                if c.k == "bin" and isinstance(lo, int):
                    l, r, o = strip(c.c[0]), c.c[1], c.x[0]
                    while l.k in ("cast", "icast") and l.c:
                        l = strip(l.c[0])
                    if l.k == "ref" and l.x[2] == n0.x[2] and "++" in inc and o in ("<", "<=", "!="):
                        hi = self.ev(r, sig)
                        if isinstance(hi, int):
                            return (lo, hi if o == "<=" else hi - 1)
                return None
        return None

    @staticmethod
    def castkind(n, q):
        if q.startswith("MiniZinc::Expression::cast") or q.startswith("MiniZinc::Expression::template cast"):
            m = LIT.search(str(n.x[0]) + " " + str(n.type))
            if m:
                return CASTS[m.group(1)]
        return None

    def use(self, n, st):
        an = self.an
        q = n.cq or ""
        if n.k == "mcall" and last_name(q) == "arg" and len(n.c) > 1:
            key = ("idx", n.line, self.fn.key)
            for sg in st:
                sig = an.sigs[sg]
                if self.ev(n.c[0], sig) != ("call",):
                    return
                r = self.irange(n.c[1], sig)
                if r is None:
                    an.unknown.add((self.fn.key, n.line))
                    an.escaped |= st
                    return
                if r[1] < r[0]:
                    continue
                an.nidx.add((self.fn.key, n.id, sg))
                if n.p is not None and n.p.is_call() and (n.p.cq or "") == "MiniZinc::Expression::loc":
                    continue  # only to say where the call is
                an.read.setdefault(sg, set()).update(range(max(r[0], 0), min(r[1], len(sig.tys) - 1) + 1))
                if r[0] < 0 or r[1] >= len(sig.tys):
                    an.report("arg", self.fn, n, sig, "reads argument %d of %r, which has %d argument%s" %
                              (r[1] if r[1] >= len(sig.tys) else r[0], sig, len(sig.tys), "" if len(sig.tys) == 1 else "s"))
            return
        if q in EVALS and len(n.c) > 1:
            arr, sty, bts = EVALS[q]
            for sg in st:
                sig = an.sigs[sg]
                e = self.ev(n.c[1], sig)
                t = self.tyof(e, sig)
                if t is None:
                    continue
                an.nev.add((self.fn.key, n.id, sg))
                if arr:
                    bad = t.dim == 0 and t.bt not in LOOSE + ("TUPLE", "RECORD")
                else:
                    bad = t.dim != 0
                    if t.bt not in LOOSE:
                        bad = bad or t.st != sty or t.bt not in bts
                    elif t.st == "SET" and sty != "SET":
                        bad = True
                if bad:
                    an.report("kind", self.fn, n, sig, "%s of argument %s of %r, which is declared %r" %
                              (last_name(q), ("%d" if e[0] == "arg" else "%d (element)") % e[1], sig, t))
            return
        cast = self.castkind(n, q)
        if cast or last_name(q) in CONV and "Instance" in q:
            arr, sty, bts = cast or CONV[last_name(q)]
            for sg in st:
                sig = an.sigs[sg]
                e = t = None
                for c in n.c:
                    e = self.ev(c, sig)
                    t = self.tyof(e, sig)
                    if t is not None:
                        break
                if t is None:
                    continue
                an.nev.add((self.fn.key, n.id, sg))
                bad = (t.dim != 0) != bool(arr)
                if t.bt not in LOOSE and bts is not None:
                    bad = bad or t.st != sty or t.bt not in bts
                if bad:
                    an.report("kind", self.fn, n, sig, "%s of argument %d of %r, which is declared %r" %
                              (last_name(q.split("<")[0]), e[1], sig, t))
            return
        if n.k == "mcall" and last_name(q) not in ("arg", "argCount") and not last_name(q).startswith("operator"):
            # other members of the call (its argument list, its declaration) may read any argument
            if any(self.ev(n.c[0], an.sigs[sg]) == ("call",) for sg in st) and last_name(q) not in ("id", "decl", "type", "loc", "ann"):
                an.escaped |= st
        # the call itself handed to code that is not analysed
        if not any(not isinstance(t, str) and t.file == an.file and t.cfg for t in an.prog.targets(n)) and \
                not q.startswith("MiniZinc::Expression::"):
            for c in n.c[1 if n.k == "mcall" else 0:]:
                if any(self.ev(c, an.sigs[sg]) == ("call",) for sg in st):
                    an.escaped |= st
        # helpers that are handed the call or an argument
        for t in an.prog.targets(n):
            if isinstance(t, str) or t.q in EVALS or t.file != an.file or not t.cfg:
                continue
            off = 1 if n.k == "mcall" else 0
            frames = {}
            for sg in st:
                sig = an.sigs[sg]
                fr = {}
                for i, c in enumerate(n.c[off:]):
                    v = self.ev(c, sig)
                    if v is not None:
                        fr[i] = v
                if any(isinstance(v, tuple) and v[0] in ("call", "arg", "elem", "arr") for v in fr.values()):
                    fr = dict((i, v) for i, v in fr.items() if not (isinstance(v, tuple) and v[0] == "type"))
                    frames.setdefault(tuple(sorted(fr.items(), key=str)), set()).add(sg)
            for fr, ss in frames.items():
                an.visit(t, dict(fr), frozenset(ss))


class Analysis(object):
    def __init__(self, prog, sigs, file):
        self.prog, self.sigs, self.file = prog, sigs, file
        self.seen, self.found = set(), {}
        self.nidx, self.nev, self.unknown = set(), set(), set()
        self.read, self.escaped = {}, set()

    def unread(self):
        """(signature, positions) never read on any path"""
        for i, sg in enumerate(self.sigs):
            if i not in self.escaped:
                m = [k for k in range(len(sg.tys)) if k not in self.read.get(i, ())]
                if m:
                    yield sg, m

    def enumval(self, q):
        for e, vals in getattr(self.prog, "E", {}).items():
            try:
                items = vals.items() if isinstance(vals, dict) else vals
                for a, b in items:
                    if last_name(str(a)) == last_name(q):
                        return b
            except Exception:
                pass
        return None

    def visit(self, fn, frame, sigs):
        key = (fn.key, tuple(sorted(frame.items(), key=str)), sigs)
        if key in self.seen or len(self.seen) > 400:
            return
        self.seen.add(key)
        Fn(self, fn, frame, sigs).run()

    def report(self, what, fn, n, sig, msg):
        self.found.setdefault((what, fn.key, n.line), (fn, n, msg))


def check(ctx):
    P = ctx.prog
    tb = table(P)
    for s in tb.skipped:
        ctx.skip("%s:%s: registration not understood" % (tb.fn.file, s.line))
    byfn = {}
    for r in tb.regs:
        byfn.setdefault(r.fn, []).append(r)
    ctx.count("registrations", len(tb.regs))
    ctx.count("evaluators", len(byfn))
    if len(tb.regs) < 200:
        raise AnalysisError("only %d registrations of built-ins understood" % len(tb.regs))
    nidx = nev = 0
    for key, regs in sorted(byfn.items()):
        fn = P.F.get(key)
        if fn is None or not fn.cfg:
            ctx.skip("evaluator %s has no body" % key)
            continue
        ci = [i for i, p in enumerate(fn.params) if "Call *" in str(p)]
        if len(ci) != 1:
            ctx.skip("evaluator %s has no call parameter" % key)
            continue
        an = Analysis(P, regs, fn.file)
        an.visit(fn, {ci[0]: ("call",)}, frozenset(range(len(regs))))
        nidx += len(an.nidx)
        nev += len(an.nev)
        for k, l in sorted(an.unknown):
            ctx.skip("%s:%s: argument position is computed" % (P.F[k].file, l))
        for (what, fk, line), (f, n, msg) in sorted(an.found.items(), key=lambda z: str(z[0])):
            ctx.bad("%s:%s:%s" % (what, last_name(fn.q), last_name(f.q)), f.loc(n), msg)
        for sg, m in an.unread():
            if sg.name in IGNORES:
                continue
            an.found[("unread", repr(sg), 0)] = None
            ctx.bad("unread:%s:%s" % (last_name(fn.q), m), fn.loc(), "the evaluator of %r never reads argument %s" %
                    (sg, ", ".join(map(str, m))))
        if not an.found:
            ctx.ok("%s fits its %d signatures" % (last_name(fn.q), len(regs)))
    ctx.count("argument positions", nidx)
    ctx.count("typed evaluations", nev)
    if nidx < 250 or nev < 120:
        raise AnalysisError("too few uses of arguments recognised (%d, %d)" % (nidx, nev))
