"""C05: printed MiniZinc and FlatZinc text parses back to the same expression."""
import os
import re

from ..facts import REPO, AnalysisError, last_name
from ..flow import strip
from ..lexspec import Spec
from ..grammar import Grammar, Reader
from ..interp import Interp, Obj, Stream, UNK, GiveUp
from .c01 import kind_constants

EXPLANATION = (
    "Finite-domain abstract interpretation of the printer (PlainPrinter) over every nesting of two node kinds: for each slot of each "
    "kind (operands of every operator, arguments, elements, indices, conditions, branches, generators, bodies, domains, items) and "
    "each kind and operator that can fill it, the set of texts the printer may write is derived from its source; the text is "
    "tokenised by the lexer specification and grouped by the LALR automaton of the grammar specification. Obligation: the text is "
    "accepted, every printed node covers exactly the tokens of one subtree, and operator nodes are reduced by the rule whose action "
    "builds that operator. Further rules: every name goes through quoteId and every string through escapeStringLit; every "
    "component of every node kind is printed; floating-point literals carry at least 16 digits.")

N = "MiniZinc::"
BOOLOPS = ("EQUIV", "IMPL", "RIMPL", "OR", "XOR", "AND")
CMP = ("LE", "LQ", "GR", "GQ", "EQ", "NQ")
SETREL = ("SUBSET", "SUPERSET")
SETOPS = ("UNION", "DIFF", "SYMDIFF", "INTERSECT")
ARITH = ("PLUS", "MINUS", "MULT", "DIV", "IDIV", "MOD", "POW")


FIELD = '"field access"'
POSTFIX = ("Id", "Call", "ArrayAccess", "FieldAccess", "ArrayLit", "Comprehension")
ASSOCIATIVE = ("PLUSPLUS",)   # regrouping chains of it does not change the value


class Model(object):
    """abstract objects with the accessors of the AST classes"""

    def __init__(self, prog):
        self.prog = prog
        self.kind = {k.split("::")[-1]: v for k, v in kind_constants(prog).items()}
        self.enum = {}
        for e in prog.E.values():
            for q, v in e["vals"]:
                self.enum[q.split("::")[-1]] = v
                self.enum[q] = v
        self.comp_index = 1
        self.bots = [q.split("::")[-1][4:] for q, v in prog.E[N + "BinOpType"]["vals"]]

    def type(self, bt="INT", st="PLAIN", ot="PRESENT", ti="VAR", dim=0, typeId=0):
        e = self.enum
        btv = e["BT_" + bt]
        tv = dict(bt=btv, st=e["ST_" + st], ot=e["OT_" + ot], ti=e["TI_" + ti], dim=dim, any=False, istop=False, isvar=ti == "VAR",
                  structBT=bt in ("TUPLE", "RECORD"), isrecord=bt == "RECORD", istuple=bt == "TUPLE", typeId=typeId, isPar=ti == "PAR", isAnn=bt == "ANN",
                  isunknown=False, isOpt=ot == "OPTIONAL", isbool=bt == "BOOL" and st == "PLAIN", cmp=(bt, st, ot, ti, dim))
        return Obj("Type", **tv)

    def node(self, kind, ann=(), type=None, **at):
        a = Obj("Annotation", items=list(ann), isEmpty=not ann)
        a.at["begin"] = Obj("iter", seq=list(ann), pos=0)
        a.at["end"] = Obj("iter", seq=list(ann), pos=len(ann))
        at.setdefault("eid", self.kind[kind])
        at.setdefault("type", type or self.type())
        o = Obj(kind, ann=a, **at)
        return o

    def id(self, name="a", ann=(), **k):
        return self.node("Id", ann, idn=-1, v=name, decl=None, str=name, **k)

    def ident(self, n):
        return self.id(n)

    def int(self, v=3, ann=()):
        o = self.node("IntLit", ann, self.type("INT", ti="PAR"))
        o.at["v"] = Obj("IntVal", text=str(v), cmp=v, toInt=v, isFinite=True, isPlusInfinity=False, isMinusInfinity=False)
        return o

    def inf(self, sign, ann=()):
        o = self.node("IntLit", ann, self.type("INT", ti="PAR"))
        o.at["v"] = Obj("IntVal", text=sign + "infinity", cmp=float("inf") if not sign else float("-inf"), isFinite=False, isPlusInfinity=not sign,
                        isMinusInfinity=bool(sign))
        return o

    def float(self, v="1.5", ann=()):
        o = self.node("FloatLit", ann, self.type("FLOAT", ti="PAR"))
        o.at["v"] = Obj("FloatVal", text=v, cmp=float(v), isFinite=True, toDouble=float(v), isPlusInfinity=False, isMinusInfinity=False)
        return o

    def bool(self, v=True, ann=()):
        return self.node("BoolLit", ann, self.type("BOOL", ti="PAR"), v=v)

    def string(self, v="s", ann=()):
        return self.node("StringLit", ann, self.type("STRING", ti="PAR"), v=v)

    def setlit(self, elems=(), isv=None, fsv=None, bt="INT", ann=()):
        def sv(x):
            if x is None:
                return None
            many = "union" in x or x.startswith("{")
            return Obj("SetVal", text=x, empty=x in ("1..0", "1.0..0.0"), size=2 if many else 0 if x in ("1..0", "1.0..0.0") else 1,
                       min=Obj("Val", isFinite=not x.startswith("-infinity")), max=Obj("Val", isFinite=not x.endswith("infinity")))
        return self.node("SetLit", ann, self.type(bt, "SET", ti="PAR"), isv=sv(isv), fsv=sv(fsv), v=list(elems), order=list(elems))

    def array(self, elems, tuple=False, record=False, dims=None, ann=(), mins=None):
        dims = dims or [(1, len(elems))]
        bt = "TUPLE" if tuple else "RECORD" if record else "INT"
        o = self.node("ArrayLit", ann, self.type(bt, dim=len(dims)), elems=list(elems), order=list(elems), size=len(elems), dims=len(dims), isTuple=tuple or record,
                      length=len(elems))
        o.at["min"] = lambda i, d=dims: d[i][0] if isinstance(i, int) and i < len(d) else UNK
        o.at["max"] = lambda i, d=dims: d[i][1] if isinstance(i, int) and i < len(d) else UNK
        return o

    def binop(self, op, l, r, ann=()):
        t = self.type("BOOL") if op in BOOLOPS + CMP + SETREL + ("IN",) else self.type()
        return self.node("BinOp", ann, t, op=self.enum["BOT_" + op], lhs=l, rhs=r, order=[l, r], decl=None, opname=op)

    def unop(self, op, e, ann=()):
        return self.node("UnOp", ann, self.type("BOOL" if op == "NOT" else "INT"), op=self.enum["UOT_" + op], e=e, decl=None, opname=op)

    def call(self, name, args, ann=()):
        o = self.node("Call", ann, id=name, argCount=len(args), args=list(args), order=list(args), decl=None, names=[] if name == "default" else [name])
        o.at["arg"] = lambda i, a=list(args): a[i] if isinstance(i, int) and i < len(a) else UNK
        return o

    def vardecl(self, name, ti=None, e=None, ann=(), toplevel=False):
        i = self.id(name)
        vd = self.node("VarDecl", ann, id=i, ti=ti or self.ti(), e=e, isTypeAlias=False, introduced=False, toplevel=toplevel, names=[name],
                       order=[e] if e else [])
        vd.at["type"] = vd.at["ti"].at["type"]
        return vd

    def ti(self, domain=None, ranges=(), type=None, ann=()):
        t = type or self.type()
        return self.node("TypeInst", ann, t, domain=domain, ranges=list(ranges), order=list(ranges), isarray=bool(ranges), isEnum=False)

    def access(self, v, idx, ann=()):
        return self.node("ArrayAccess", ann, v=v, idx=list(idx), order=[v] + list(idx))

    def field(self, v, f, ann=()):
        return self.node("FieldAccess", ann, v=v, field=f, order=[v, f])

    def comp(self, e, gens, set=False, ann=()):
        """gens: [(names, in, where)]"""
        o = self.node("Comprehension", ann, e=e, set=set, numberOfGenerators=len(gens), order=[e] + [x for g in gens for x in g[1:] if x], raw=[x for g in gens for x in g[1:]],
                      names=[x for g in gens for x in g[0]])
        o.at["numberOfDecls"] = lambda i: len(gens[i][0]) if isinstance(i, int) else UNK
        ds = [[self.vardecl(x) for x in g[0]] for g in gens]
        o.at["decl"] = lambda i, j: ds[i][j] if isinstance(i, int) and isinstance(j, int) else UNK
        o.at["in"] = lambda i: gens[i][1]
        o.at["where"] = lambda i: gens[i][2]
        return o

    def ite(self, conds, els, ann=()):
        o = self.node("ITE", ann, size=len(conds), elseExpr=els, raw=[x for c in conds for x in c], order=[x for c in conds for x in c] + [els])
        o.at["ifExpr"] = lambda i: conds[i][0]
        o.at["thenExpr"] = lambda i: conds[i][1]
        return o

    def let(self, items, e, ann=()):
        return self.node("Let", ann, order=list(items) + [e], **{"let": list(items), "in": e})

    def anon(self):
        return self.node("AnonVar")

    def tiid(self, v="T"):
        return self.node("TIId", v=v)

    def item(self, kind, **at):
        o = Obj(kind, removed=False, iid=self.enum["II_" + {"ConstraintI": "CON", "VarDeclI": "VD", "AssignI": "ASN", "SolveI": "SOL", "OutputI": "OUT",
                                                            "FunctionI": "FUN", "IncludeI": "INC"}[kind]], **at)
        if kind == "FunctionI":
            ps = at["params"]
            o.at["param"] = lambda i: ps[i] if isinstance(i, int) and i < len(ps) else UNK
            o.at["paramCount"] = len(ps)
            o.at["order"] = list(ps)
        return o

    def ann(self, items):
        a = Obj("Annotation", items=list(items), isEmpty=not items)
        a.at["begin"] = Obj("iter", seq=list(items), pos=0)
        a.at["end"] = Obj("iter", seq=list(items), pos=len(items))
        return a


class Mark(object):
    def __init__(self, obj, op):
        self.obj, self.op = obj, op


class Printer(object):
    def __init__(self, prog, model):
        self.prog, self.m = prog, model
        # the printer class used with a stream member: methods taking an Expression*, instantiated without tracing
        self.expr = self.item = None
        cands = [f for f in prog.F.values() if f.cls and f.cfg is not None and len(f.params) == 1 and f.file.endswith(".cpp") and not f.static
                 and re.match(r"^const MiniZinc::Expression \*$", f.params[0][1])]
        best = None
        for f in cands:
            kinds = sum(1 for n in f.nodes if n.k == "case" and n.x[0] in model.kind.values())
            st = any(re.search(r"basic_ostream|ostream", fl[1]) for fl in prog.C[f.cls]["fields"]) if f.cls in prog.C else False
            if kinds >= 12 and st and "<true>" not in f.q:
                best = f
        if best is None:
            raise AnalysisError("no expression printer with a case per expression kind found")
        self.expr = best
        for f in prog.F.values():
            if f.cls == best.cls and len(f.params) == 1 and re.match(r"^const MiniZinc::Item \*$", f.params[0][1]):
                self.item = f
        self.flags = [fl[0] for fl in prog.C[best.cls]["fields"]]

    def texts(self, obj, flat=False, item=False):
        """possible printed texts of an abstract node, with the token marks of every nested node: list of parts, undecided count"""
        prog = self.prog
        mem = {}
        for fl in prog.C[self.expr.cls]["fields"]:
            nm = fl[0].split("::")[-1]
            if "ostream" in fl[1]:
                mem[nm] = "OS"
            elif "bool" in fl[1]:
                mem[nm] = flat
            elif "EnvI" in fl[1]:
                mem[nm] = getattr(self, "envobj", None)
        consts = {}

        def start(ip):
            st = Stream()
            for k, v in list(ip.members.items()):
                if v == "OS" or isinstance(v, Stream):
                    ip.members[k] = st
            self.stream = st

            def hook(ip, n, env, fn):
                m = n.mname
                if m == "quoteId" and n.args():
                    v = ip.val(n.args()[0], env, fn)
                    return (v if not isinstance(v, str) or re.match(r"_?[A-Za-z][A-Za-z0-9_]*$", v) or v[:1] == "'" else "'%s'" % v,)
                if m == "escapeStringLit" and n.args():
                    v = ip.val(n.args()[0], env, fn)
                    return (v.replace("\\", "\\\\").replace('"', '\\"') if isinstance(v, str) else v,)
                if re.match(r"(par|var|optvar|optpar)(bool|int|float|string|setint|setbool)$|ann$", m) and "Type" in (n.cq or "") and n.k == "call" and all(x.k == "darg" for x in n.args()):
                    mm = re.match(r"(opt)?(par|var)?(set)?(\w+)$", m)
                    return (self.m.type(mm.group(4).upper(), "SET" if mm.group(3) else "PLAIN", "OPTIONAL" if mm.group(1) else "PRESENT",
                                        "VAR" if mm.group(2) == "var" else "PAR"),)
                if m == "constants" and not n.args():
                    return (self.const,)
                if m == "pp_type_is_any":
                    return (False,)
                ts = prog.targets(n)
                if len(ts) == 1 and list(ts)[0] is self.expr and n.args():
                    o = ip.val(n.args()[0], env, fn)
                    if isinstance(o, Obj):
                        st.out.append(Mark(o, 0))
                        ip.call(self.expr, [o], "this", env["depth"] + 1)
                        st.out.append(Mark(o, 1))
                        return (UNK,)
                # methods of the printer
                if len(ts) == 1 and list(ts)[0].cls == self.expr.cls and n.k == "mcall" and strip(n.c[0]).k == "this":
                    t = list(ts)[0]
                    av = [ip.val(a, env, fn) for a in n.args()]
                    ip.call(t, av, "this", env["depth"] + 1)
                    return (UNK,)
                return None
            ip.fnhook = hook
            f = self.item if item else self.expr
            if not item:
                st.out.append(Mark(obj, 0))
            ip.call(f, [obj], "this", 0)
            if not item:
                st.out.append(Mark(obj, 1))
            return list(st.out)
        for q, v in prog.V.items():
            if q.endswith("Type::COMP_INDEX"):
                consts[q] = self.m.comp_index
        self.const = Obj("Constants", absent=getattr(self, "absent", None) or Obj("Id", cmp="absent"), ids=Obj("Ids"))
        ip = Interp(prog, consts, mem)
        return ip.runs(start)


class Check(object):
    def __init__(self, ctx):
        self.ctx = ctx
        prog = ctx.prog
        self.m = Model(prog)
        self.p = Printer(prog, self.m)
        self.reader = Reader(Spec(os.path.join(REPO, "lib/lexer.lxx")), Grammar(os.path.join(REPO, "lib/parser.yxx")))
        self.g = self.reader.gram
        self.nomark = None

    # ---- one printed text against the grammar
    def verify(self, parts, prefix, suffix, item=False):
        """None when fine, else a message"""
        text = prefix
        marks = []
        open_ = []
        for x in parts:
            if isinstance(x, Mark):
                if x.op == 0:
                    open_.append((x.obj, len(text)))
                else:
                    o, a = open_.pop()
                    marks.append((o, a, len(text)))
            elif x is UNK:
                return "?", text
            else:
                text += x
        text += suffix
        toks, pos = self.reader.tokens(text)
        if toks is None:
            return "the lexer rejects it at %r" % text[pos:pos + 12], text
        tree, q = self.g.parse([(a, b) for a, b, c in toks])
        if tree is None:
            at = toks[q][2] if q < len(toks) else len(text)
            return "syntax error at %r" % text[at:at + 14], text
        if item:
            acts = " ".join(self.g.action.get(t.rule, "") for t in tree.walk() if t.rule is not None)
            if not re.search(item, acts):
                return "is read as another item", text
        starts = [c for a, b, c in toks]
        ends = [c + len(b) for a, b, c in toks]
        spans = {}
        for t in tree.walk():
            if t.hi > t.lo:
                spans.setdefault((t.lo, t.hi), []).append(t)
        for o, a, b in marks:
            lo = next((i for i, s in enumerate(starts) if s >= a and ends[i] > a), None)
            # token may begin before the node when two tokens ran together
            inside = [i for i in range(len(toks)) if ends[i] > a and starts[i] < b]
            inside = [i for i in inside if text[max(starts[i], a):min(ends[i], b)].strip()]
            if not inside:
                continue
            if starts[inside[0]] < a and text[starts[inside[0]]:a].strip() or ends[inside[-1]] > b and text[b:ends[inside[-1]]].strip():
                if not (toks[inside[0]][0] == FIELD or toks[inside[-1]][0] == FIELD and o.kind in POSTFIX and not o.at["ann"].at["items"]):
                    return "tokens run together: %r" % text[starts[inside[0]]:ends[inside[-1]]][:20], text
                continue
            sp = (inside[0], inside[-1] + 1)
            ts = spans.get(sp)
            what = self.describe(o)
            while not ts and sp[1] - sp[0] > 2 and toks[sp[0]][1] == "(" and toks[sp[1] - 1][1] == ")":
                # the parentheses are part of another rule
                sp = (sp[0] + 1, sp[1] - 1)
                ts = spans.get(sp)
            if not ts and sp[1] < len(toks) and (toks[sp[1]][1] == "[" or toks[sp[1]][0] == FIELD) and o.kind in POSTFIX and \
                    not o.at["ann"].at["items"]:
                # a longer chain of postfix operators around the same atom
                continue
            if not ts and o.kind == "BinOp" and o.at["opname"] in ASSOCIATIVE and self.regrouped(o, sp, spans, text[a:b]):
                continue
            if not ts:
                return "the text of %s is not one unit for the parser" % what, text
            msg = self.builds(o, ts, what, text[a:b])
            if msg:
                return msg, text
        return None, text

    def regrouped(self, o, sp, spans, txt):
        """the node is part of a chain of the same associative operator"""
        for (lo, hi), ts in spans.items():
            if hi == sp[1] and lo < sp[0]:
                for t in ts:
                    if t.rule is not None and ("BOT_" + o.at["opname"]) in self.g.action.get(t.rule, ""):
                        return True
        return False

    def complete(self, obj, parts, text):
        """every node and name below obj is written; message or None"""
        marked = set(id(x.obj) for x in parts if isinstance(x, Mark))
        first = {}
        for i, x in enumerate(parts):
            if isinstance(x, Mark):
                first.setdefault(id(x.obj), i)
        todo, seen = [obj], set()
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            for nm in o.at.get("names", ()):
                if nm not in text:
                    return "the name `%s` is not written" % nm
            ps = [first[id(x)] for x in o.at.get("order", ()) if id(x) in first]
            if ps != sorted(ps):
                return "the components of %s are not written in order" % self.describe(o)
            if "eid" in o.at and id(o) not in marked and o.kind not in ("Annotation",) and o is not self.nomark and not (isinstance(self.nomark, list) and any(o is x or o is x.at.get('ti') for x in self.nomark)):
                return "%s is not written" % self.describe(o)
            kids = list(o.at.get("raw", ()))
            for k, v in o.at.items():
                if k in ("type", "id", "names", "raw", "order", "decl", "seq", "begin", "end", "nocheck") or k in o.at.get("nocheck", ()):
                    continue
                kids += v if isinstance(v, (list, tuple)) else [v]
            if isinstance(o.at.get("items"), list):
                kids += o.at["items"]
            todo += [x for x in kids if isinstance(x, Obj) and ("eid" in x.at or x.kind == "Annotation")]
        return None

    def describe(self, o):
        return o.at.get("opname", o.kind) + (" operation" if "opname" in o.at else "")

    def builds(self, o, ts, what, txt):
        ann = o.at["ann"].at["items"] if "ann" in o.at else []
        cur = ts
        if ann and o.kind not in ("VarDecl",):
            for a in reversed(ann):
                nxt = None
                for t in cur:
                    if t.rule is not None and len(t.kids) == 3 and t.kids[1].text == "::":
                        nxt = t.kids[0]
                if nxt is None:
                    return "an annotation of %s is attached to another expression by the parser" % what
                cur = [nxt]
                while len(nxt.kids) == 1 or len(nxt.kids) == 3 and nxt.kids[0].text == "(" and nxt.kids[2].text == ")":
                    nxt = nxt.kids[0 if len(nxt.kids) == 1 else 1]
                    cur.append(nxt)
        want = {"ITE": "new ITE", "Let": "new Let", "Comprehension": "new Comprehension"}.get(o.kind)
        if o.kind == "ArrayLit" and o.at["isTuple"] and not o.at["type"].at["isrecord"]:
            want = "constructTuple"
        if want:
            acts = [self.g.action.get(t.rule, "") for t in cur if t.rule is not None]
            if not any(want in a for a in acts):
                return "%s is read as another construct" % ("a tuple" if o.kind == "ArrayLit" else what)
        msg = self.leaf(o, txt)
        if msg:
            return msg
        if "opname" in o.at:
            want = ("BOT_" if o.kind == "BinOp" else "UOT_") + o.at["opname"]
            seen = set()
            for t in cur:
                if t.rule is not None:
                    a = self.g.action.get(t.rule, "")
                    for m in re.findall(r"\b(?:BOT|UOT)_\w+", a):
                        seen.add(m)
            if want not in seen and not (o.kind == "BinOp" and o.at["opname"] == "POW" and "BOT_POW" in seen):
                return "%s is read as %s" % (what, ", ".join(sorted(seen)) or "another construct")
        return None

    def leaf(self, o, txt):
        """literals and names are written with their value"""
        want = None
        if o.kind == "Id":
            d = o.at.get("decl") or None
            i = d.at["id"] if isinstance(d, Obj) else o
            if i.at.get("cmp") == "absent":
                return None
            if i.at["idn"] >= 0:
                if not re.search(r"(?<!\d)%d(?!\d)" % i.at["idn"], txt):
                    return "the number of the introduced name is not written"
                return None
            v = i.at["v"]
            want = (v if re.match(r"[A-Za-z]\w*$", v) else "'%s'" % v,)
        elif o.kind in ("IntLit", "FloatLit"):
            want = (o.at["v"].at["text"],)
        elif o.kind == "BoolLit":
            want = ("true" if o.at["v"] else "false",)
        elif o.kind == "StringLit":
            want = ('"%s"' % o.at["v"].replace("\\", "\\\\").replace('"', '\\"'),)
        elif o.kind == "SetLit":
            sv = o.at["isv"] or o.at["fsv"]
            if sv and o.at["type"].at["bt"] != self.m.enum["BT_BOOL"]:
                want = (sv.at["text"],) + (("{}",) if sv.at["empty"] else ())
        if want is None:
            return None
        t = txt.strip()
        while t.startswith("("):
            t = t[1:].strip()
        if not t.startswith(want):
            return "%s %s is written as something else" % (self.describe(o), want[0])
        return None

    def run(self, key, obj, prefix="constraint ", suffix=";", flat=False, item=False, expect=None, nomark=None, starts=None):
        ctx = self.ctx
        self.nomark = nomark
        ctx.count("item texts" if item else "slot and child combinations")
        try:
            res = self.p.texts(obj, flat, item)
        except GiveUp as e:
            ctx.skip("%s: %s" % (key, e))
            return
        msgs = []
        for parts, und in res:
            if parts is None:
                continue
            m, text = self.verify(parts, "" if item else prefix, "" if item else suffix, item)
            if m is None and any(isinstance(x, Mark) for x in parts):
                m = self.complete(obj, parts, text)
            if m is None and expect is not None and "".join(x for x in parts if isinstance(x, str)) not in expect:
                m = "should be %s" % " or ".join(sorted(expect))
            if m is None and starts is not None and not text.strip().startswith(starts + ("function ",)):
                m = "should start with %s" % starts[0]
            msgs.append((m, text, und))
        if not msgs:
            ctx.skip(key + ": every path throws")
            return
        bad = [x for x in msgs if x[0] is not None]
        if any(x[0] == "?" for x in bad):
            ctx.skip("%s: unknown text written" % key)
            return
        if bad and len(bad) < len(msgs):
            # depends on an undecided condition
            ctx.skip("%s: depends on an undecided condition" % key)
            return
        if bad:
            ctx.bad(key, self.p.expr.loc(), "printed as `%s`: %s" % (bad[0][1].replace("constraint ", "", 1).rstrip(";\n"), bad[0][0]))
        else:
            ctx.count("texts decided")
            ctx.ok("%s -> %s" % (key, msgs[0][1].strip()))


def children(m, annotated=False):
    """abstract expressions of each result type: {type: [(name, factory)]}"""
    a, b, c = (lambda: m.id("a")), (lambda: m.id("b")), (lambda: m.id("c"))
    gen = lambda: [(["i"], m.id("s"), None)]
    num = [("Id", lambda an=(): m.id("a", an)), ("IntLit", lambda an=(): m.int(3, an)), ("IntLit-", lambda an=(): m.int(-10, an)), ("FloatLit", lambda an=(): m.float("1.5", an)),
           ("FloatLit-", lambda an=(): m.float("-1.5", an)), ("FloatLitE", lambda an=(): m.float("1e+20", an)),
           ("Inf", lambda an=(): m.inf("", an)), ("Inf-", lambda an=(): m.inf("-", an))]
    for op in ARITH:
        num.append((op, lambda an=(), op=op: m.binop(op, a(), b(), an)))
    for op in ("PLUS", "MINUS"):
        num.append(("U" + op, lambda an=(), op=op: m.unop(op, a(), an)))
        num.append(("U" + op + " Let", lambda an=(), op=op: m.unop(op, m.let([m.vardecl("y")], b()), an)))
        num.append(("U" + op + " ITE", lambda an=(), op=op: m.unop(op, m.ite([(a(), b())], c()), an)))
    boo = [("BoolLit", lambda an=(): m.bool(True, an)), ("Id", lambda an=(): m.id("a", an))]
    for op in BOOLOPS + CMP + SETREL + ("IN",):
        if op in m.bots:
            boo.append((op, lambda an=(), op=op: m.binop(op, a(), b(), an)))
    boo.append(("NOT", lambda an=(): m.unop("NOT", a(), an)))
    boo.append(("NOT Let", lambda an=(): m.unop("NOT", m.let([m.vardecl("y")], b()), an)))
    st = [("Id", lambda an=(): m.id("s", an)), ("SetRange", lambda an=(): m.setlit(isv="1..3", ann=an)), ("SetList", lambda an=(): m.setlit(isv="{1,3}", ann=an)),
          ("SetEmpty", lambda an=(): m.setlit(isv="1..0", ann=an)), ("SetNeg", lambda an=(): m.setlit(isv="-3..-1", ann=an)),
          ("SetInf", lambda an=(): m.setlit(isv="-infinity..3 union {5}", ann=an)),
          ("FloatSet", lambda an=(): m.setlit(fsv="1.0..2.0", ann=an)), ("FloatUnion", lambda an=(): m.setlit(fsv="1.0..2.0 union 3.0..4.0", ann=an)),
          ("SetExprs", lambda an=(): m.setlit([a(), b()], ann=an)), ("DOTDOT", lambda an=(): m.binop("DOTDOT", a(), b(), an)),
          ("SetComp", lambda an=(): m.comp(m.id("i"), gen(), True, an))]
    for op in SETOPS:
        st.append((op, lambda an=(), op=op: m.binop(op, a(), b(), an)))
    arr = [("Id", lambda an=(): m.id("x", an)), ("Array", lambda an=(): m.array([a(), b()], ann=an)), ("ArrayEmpty", lambda an=(): m.array([], ann=an)),
           ("Array2d", lambda an=(): m.array([a(), b(), c(), a()], dims=[(1, 2), (1, 2)], ann=an)),
           ("Array1dOff", lambda an=(): m.array([a(), b()], dims=[(0, 1)], ann=an)), ("Array1dNeg", lambda an=(): m.array([a(), b()], dims=[(-2, -1)], ann=an)),
           ("Array3d", lambda an=(): m.array([a(), b()], dims=[(1, 1), (1, 2), (1, 1)], ann=an)),
           ("Comp", lambda an=(): m.comp(m.id("i"), gen(), False, an)), ("PLUSPLUS", lambda an=(): m.binop("PLUSPLUS", a(), b(), an))]
    stri = [("StringLit", lambda an=(): m.string("s", an)), ("Id", lambda an=(): m.id("a", an)), ("PLUSPLUS", lambda an=(): m.binop("PLUSPLUS", a(), m.string("s"), an))]
    tup = [("Id", lambda an=(): m.id("t", an)), ("Tuple", lambda an=(): m.array([a(), b()], tuple=True, ann=an)), ("Tuple1", lambda an=(): m.array([a()], tuple=True, ann=an)),
           ("PLUSPLUS", lambda an=(): m.binop("PLUSPLUS", a(), b(), an))]
    any_ = [("ArrayAccess", lambda an=(): m.access(m.id("x"), [a()], an)), ("ArrayAccess2", lambda an=(): m.access(m.id("x"), [a(), b()], an)),
            ("FieldAccess", lambda an=(): m.field(m.id("t"), m.int(1), an)), ("FieldName", lambda an=(): m.field(m.id("t"), m.id("f"), an)),
            ("ITE", lambda an=(): m.ite([(a(), b())], c(), an)), ("ITE2", lambda an=(): m.ite([(a(), b()), (c(), a())], c(), an)),
            ("Call0", lambda an=(): m.call("f", [], an)), ("Call", lambda an=(): m.call("f", [a(), b()], an)), ("Default", lambda an=(): m.call("default", [a(), b()], an)),
            ("Let", lambda an=(): m.let([m.vardecl("y")], b(), an)), ("LetC", lambda an=(): m.let([m.vardecl("y"), m.binop("LE", a(), b())], b(), an))]
    out = {}
    for t, l in (("num", num), ("bool", boo), ("set", st), ("array", arr), ("string", stri), ("tuple", tup)):
        out[t] = l + any_
        if t in ("num", "bool"):
            out[t] = out[t] + [("Anon", lambda an=(): m.anon())]
    return out


def slots(m):
    """[(name, child type, factory(child) -> parent)]"""
    a, b, c = (lambda: m.id("a")), (lambda: m.id("b")), (lambda: m.id("c"))
    S = []
    optypes = {}
    for op in ARITH:
        optypes[op] = [("num", "num")]
    for op in BOOLOPS:
        optypes[op] = [("bool", "bool")]
    for op in CMP:
        optypes[op] = [("num", "num"), ("bool", "bool"), ("set", "set"), ("array", "array"), ("string", "string"), ("tuple", "tuple")]
    for op in SETOPS + SETREL:
        optypes[op] = [("set", "set")]
    optypes["IN"] = [("num", "set")]
    optypes["DOTDOT"] = [("num", "num")]
    optypes["PLUSPLUS"] = [("array", "array"), ("string", "string"), ("tuple", "tuple")]
    for op in m.bots:
        for l, r in optypes.get(op, [("num", "num")]):
            S.append((op + ".left", l, lambda x, op=op: m.binop(op, x, m.id("z"))))
            S.append((op + ".right", r, lambda x, op=op: m.binop(op, m.id("z"), x)))
    S.append(("UPLUS", "num", lambda x: m.unop("PLUS", x)))
    S.append(("UMINUS", "num", lambda x: m.unop("MINUS", x)))
    S.append(("NOT", "bool", lambda x: m.unop("NOT", x)))
    for t in ("num", "bool", "set", "array", "string", "tuple"):
        S.append(("Call.arg", t, lambda x: m.call("f", [a(), x, b()])))
        S.append(("Default.left", t, lambda x: m.call("default", [x, b()])))
        S.append(("Default.right", t, lambda x: m.call("default", [a(), x])))
        S.append(("ITE.then", t, lambda x: m.ite([(a(), x), (b(), c())], c())))
        S.append(("ITE.else", t, lambda x: m.ite([(a(), b())], x)))
        S.append(("Let.in", t, lambda x: m.let([m.vardecl("y")], x)))
        S.append(("Let.init", t, lambda x: m.let([m.vardecl("y", e=x)], b())))
        S.append(("Tuple.elem", t, lambda x: m.array([a(), x], tuple=True)))
        S.append(("Tuple1.elem", t, lambda x: m.array([x], tuple=True)))
        S.append(("Array.elem", t, lambda x: m.array([a(), x])))
        S.append(("Comp.e", t, lambda x: m.comp(x, [(["i"], m.id("s"), None)])))
        S.append(("Comp.eq", t, lambda x: m.comp(a(), [(["i"], m.id("s"), None), (["j"], None, x)])))
        if t != "tuple":
            S.append(("Array2d.elem", t, lambda x: m.array([a(), x, b(), c()], dims=[(1, 2), (1, 2)])))
            S.append(("Array1d.elem", t, lambda x: m.array([a(), x], dims=[(0, 1)])))
    S.append(("ITE.if", "bool", lambda x: m.ite([(x, b()), (a(), c())], c())))
    S.append(("ITE.elseif", "bool", lambda x: m.ite([(a(), b()), (x, c())], c())))
    S.append(("Let.constraint", "bool", lambda x: m.let([m.vardecl("y"), x], b())))
    S.append(("Set.elem", "num", lambda x: m.setlit([a(), x])))
    S.append(("Comp.in", "set", lambda x: m.comp(a(), [(["i"], x, None), (["j", "k"], m.id("s"), None)])))
    S.append(("Comp.in", "array", lambda x: m.comp(a(), [(["i"], x, None), (["j"], m.id("s"), None)])))
    S.append(("Comp.where", "bool", lambda x: m.comp(a(), [(["i"], m.id("s"), x), (["j"], m.id("s"), b())])))
    S.append(("Comp.where2", "bool", lambda x: m.comp(a(), [(["i"], m.id("s"), b()), (["j"], m.id("s"), x)])))
    S.append(("SetComp.e", "num", lambda x: m.comp(x, [(["i"], m.id("s"), None)], True)))
    S.append(("Access.array", "array", lambda x: m.access(x, [a()])))
    S.append(("Access.index", "num", lambda x: m.access(m.id("x"), [a(), x])))
    S.append(("Access.slice", "set", lambda x: m.access(m.id("x"), [x, a()])))
    S.append(("Field.of", "tuple", lambda x: m.field(x, m.int(1))))
    return S


EDGE = ("PLUS.", "MULT.", "POW.", "UMINUS", "NOT", "AND.", "EQ.", "IN.", "DOTDOT.", "UNION.", "PLUSPLUS.", "Call.", "Default.", "ITE.", "Let.",
        "Tuple.", "Array.", "Array2d.", "Set.", "Comp.", "SetComp.", "Access.", "Field.")


def check(ctx):
    C = Check(ctx)
    m = C.m
    ctx.count("binary operators", len(m.bots))
    ctx.need("binary operators", 20)
    kids = children(m)
    sl = slots(m)
    for slot, t, mk in sl:
        for name, ck in kids[t]:
            C.run("%s(%s)" % (slot, name), mk(ck()))
        # a name that needs quoting
        C.run("%s(Id quoted)" % slot, mk(m.id("a b")))
        if slot.startswith(EDGE):
            for name, ck in kids[t]:
                if name not in ("Anon", "IntLit", "IntLit-", "Inf", "Inf-", "FloatLit", "FloatLit-", "FloatLitE"):
                    C.run("%s(%s annotated)" % (slot, name), mk(ck([m.id("an")])))
    names(C)
    items(C)
    numbers(ctx)
    if ctx.tier == "thorough":
        three(C, kids, sl)
    ctx.need("slot and child combinations", 5000)
    ctx.need("texts decided", 5000)


def numbers(ctx):
    """text of floating point values"""
    prog = ctx.prog
    fs = [f for f in prog.F.values() if last_name(f.q).startswith("operator<<") and f.cfg is not None
          and any(re.search(r"MiniZinc::FloatVal\b", p[1]) for p in f.params)]
    if not fs:
        raise AnalysisError("no output operator of floating point values found")
    seen = set()
    for f in fs:
        key = (f.file, f.line)
        if key in seen:
            continue
        seen.add(key)
        clos = [f] + [t for n in f.nodes if n.k in ("call", "mcall") for t in prog.targets(n) if t.file == f.file and "FloatVal" in t.q]
        prec, chars = [], set()
        for g in clos:
            for n in g.nodes:
                if n.k in ("call", "mcall") and n.mname in ("setprecision", "precision") and n.args():
                    prec.append(constant(n.args()[0]))
                elif n.k == "str":
                    chars |= set(str(n.x[0]))
                elif n.k == "int" and isinstance(n.x[0], int) and 32 < n.x[0] < 127:
                    chars.add(chr(n.x[0]))
        ctx.count("number output operators")
        if not prec:
            ctx.skip("no precision set by " + f.q)
        for v in prec:
            if v is None:
                ctx.skip("precision is not constant in " + f.q)
            else:
                ctx.check(v >= 16, "number:precision", f.loc(), "floating point values are written with %s significant digits: different values "
                          "are written as the same text" % v, "%d significant digits" % v)
        ctx.check("." in chars, "number:point", f.loc(), "a floating point value without fraction is written like an integer", "fraction completed")
        ctx.check("e" in chars, "number:exponent", f.loc(), "a floating point value with an exponent gets a fraction after the exponent",
                  "exponents recognised")


def constant(n):
    n = strip(n)
    if n.k == "int":
        return n.x[0]
    if n.k == "ref" and n.x and isinstance(n.x[-1], int) and n.x[0] in ("g", "s", "e", "m"):
        return n.x[-1]
    if n.k == "ref" and n.x and str(n.x[-1]).startswith("std::numeric_limits<double>::"):
        return {"digits10": 15, "max_digits10": 17}.get(n.x[-2])
    if n.k == "bin" and len(n.c) == 2:
        l, r = constant(n.c[0]), constant(n.c[1])
        if l is not None and r is not None:
            return {"+": l + r, "-": l - r, "*": l * r}.get(n.x[0])
    if n.k in ("cast", "ccast", "icast") and n.c:
        return constant(n.c[-1])
    return None


def names(C):
    """texts with names and strings that need quoting or escaping"""
    m = C.m
    a, b = m.id("a"), m.id("b")
    q = "a b"
    R = [("Call name", m.call(q, [a])), ("generator name", m.comp(a, [([q], b, None), (["j"], b, None)])),
         ("generator names", m.comp(a, [(["j", q], b, m.id(q))])), ("assigned generator name", m.comp(a, [(["j"], b, None), ([q], None, m.id("a"))])),
         ("let name", m.let([m.vardecl(q, e=a)], b)), ("field name", m.field(a, m.id(q))), ("index name", m.access(a, [m.id(q)])),
         ("string", m.call("f", [m.string('x"y')])), ("string backslash", m.call("f", [m.string("x\\")])),
         ("introduced name", m.call("f", [m.node("Id", idn=7, v="<number>", decl=None)]), ("f(X_INTRODUCED_7_)",)),
         ("declared name", m.call("f", [m.node("Id", idn=-1, v="zz", decl=Obj("VarDecl", id=m.id(q)), nocheck=("decl",))]))]
    for x in R:
        C.run("name:" + x[0], x[1], expect=x[2] if len(x) > 2 else None)
    # the number of an introduced name is written the same way everywhere
    i7 = lambda: m.node("Id", idn=7, v="<number>", decl=None)
    vd = m.vardecl("zz")
    vd.at["id"], vd.at["names"] = i7(), ["X_INTRODUCED_7_"]
    C.run("introduced declaration", m.item("VarDeclI", e=vd), item="VarDecl")
    g = m.comp(a, [(["zz"], b, None)])
    g.at["names"] = ["X_INTRODUCED_7_"]
    g.at["decl"] = lambda i, j: vd
    C.run("introduced generator name", g)
    C.run("output section", m.item("OutputI", ann=m.ann([m.call("mzn_output_section", [m.string("sec")])]), e=a, names=['"sec"'], nocheck=("ann",)), item="OutputI")
    # structured types
    env = Obj("EnvI")
    types = {}
    env.at["getRecordType"] = env.at["getTupleType"] = lambda t: types[t.at["typeId"]]

    def struct(tid, comps, fields=None):
        o = Obj("StructType", size=len(comps), elems=list(comps))
        if fields:
            o.at["fieldName"] = lambda i: fields[i] if isinstance(i, int) and i < len(fields) else UNK
        types[tid] = o
    vi, pb = m.type(), m.type("BOOL", ti="PAR")
    struct(101, [vi, pb, vi], ["a b", "c", "d e"])
    struct(102, [vi, pb, vi])
    rec, tup = m.type("RECORD", typeId=101), m.type("TUPLE", typeId=102)
    C.p.envobj = env
    r = m.array([a, b, m.id("c")], record=True)
    r.at["type"] = rec
    r.at["isTuple"] = False
    r.at["names"] = ["'a b'", "c", "'d e'"]
    C.run("record literal", m.call("f", [r]))
    v = m.id("t")
    v.at["type"] = rec
    k = m.int(3)
    C.run("record field", m.call("f", [m.field(v, k)]), nomark=k, expect=("f(t.'d e')",))
    for nm, t, want in (("record", rec, "record(var int: 'a b', bool: c, var int: 'd e'): x;\n"), ("tuple", tup, "tuple(var int, bool, var int): x;\n")):
        C.run("VarDeclI(%s)" % nm, m.item("VarDeclI", e=m.vardecl("x", ti=m.ti(type=t))), item="VarDecl", expect=(want,))
    C.p.envobj = None
    r = m.array([m.vardecl("a b", e=a), m.vardecl("c", e=b)], record=True)
    r.at["isTuple"] = False
    C.run("record literal declarations", m.call("f", [r]), nomark=r.at["elems"])
    big = [m.id(x) for x in "abcdef"]
    C.run("2d array", m.array(big, dims=[(1, 2), (1, 3)]))
    C.run("2d array 3x2", m.array(big, dims=[(1, 3), (1, 2)]))
    C.run("2d array offset", m.array(big, dims=[(1, 2), (0, 2)]), expect=("array2d(1..2,0..2,[a,b,c,d,e,f])",))
    C.run("2d array offset first", m.array(big, dims=[(0, 1), (1, 3)]), expect=("array2d(0..1,1..3,[a,b,c,d,e,f])",))
    C.run("2d array empty", m.array([], dims=[(1, 2), (1, 0)]), expect=("array2d(1..2,1..0,[])",))
    C.run("3d array", m.array(big, dims=[(1, 2), (1, 3), (1, 1)]), expect=("array3d(1..2,1..3,1..1,[a,b,c,d,e,f])",))
    # sets of Booleans
    for lo, hi, want in ((0, 0, "{false}"), (1, 1, "{true}"), (0, 1, "{false,true}")):
        s = m.setlit(isv="%d..%d" % (lo, hi), bt="BOOL")
        s.at["isv"].at.update(min=lo, max=hi)
        C.run("Boolean set " + want, s, expect=(want,))
    C.run("empty Boolean set", m.setlit(isv="1..0", bt="BOOL"), expect=("{}",))
    C.run("true", m.bool(True), expect=("true",))
    C.run("false", m.bool(False), expect=("false",))
    ab = m.node("Id", idn=-1, v="absent", decl=None, cmp="absent")
    C.p.absent = ab
    C.run("absent", m.call("f", [ab]), expect=("f(<>)",))
    # indexed comprehensions
    t = m.array([a, b], tuple=True)
    t.at["type"].at["typeId"] = m.comp_index
    C.run("indexed comprehension", m.comp(t, [(["i"], m.id("s"), None)]) if True else None, nomark=t)
    t3 = m.array([a, b, m.id("c")], tuple=True)
    t3.at["type"].at["typeId"] = m.comp_index
    C.run("indexed comprehension 2", m.comp(t3, [(["i"], m.id("s"), None)]), nomark=t3)


def items(C):
    m = C.m
    a, b = m.id("a"), m.id("b")
    kids = children(m)
    seen = set()
    allk = []
    for t in sorted(kids):
        for name, ck in kids[t]:
            if name not in seen:
                seen.add(name)
                allk.append((t, name, ck))
    none = m.ann([])
    for t, name, ck in allk:
        for an in ((), (m.id("an"),)):
            if an and name in ("Anon", "IntLit", "IntLit-", "Inf", "Inf-", "FloatLit", "FloatLit-", "FloatLitE"):
                continue
            sfx = name + (" annotated" if an else "")
            C.run("ConstraintI(%s)" % sfx, m.item("ConstraintI", e=ck(list(an))) if an else m.item("ConstraintI", e=ck()), item="ConstraintI")
            x = ck(list(an)) if an else ck()
            C.run("AssignI(%s)" % sfx, m.item("AssignI", id="a b", e=x, names=["a b"]), item="AssignI")
            C.run("VarDeclI.e(%s)" % sfx, m.item("VarDeclI", e=m.vardecl("a b", e=x)), item="VarDecl")
            C.run("SolveI.min(%s)" % sfx, m.item("SolveI", st=m.enum["ST_MIN"], ann=none, e=x), item="SolveI::min")
            C.run("SolveI.max(%s)" % sfx, m.item("SolveI", st=m.enum["ST_MAX"], ann=m.ann([a, m.call("f", [b])]), e=x), item="SolveI::max")
            C.run("OutputI(%s)" % sfx, m.item("OutputI", ann=none, e=x), item="OutputI")
    C.run("SolveI.sat", m.item("SolveI", st=m.enum["ST_SAT"], ann=m.ann([a, m.call("f", [b])]), e=None), item="SolveI::sat")
    C.run("SolveI.sat2", m.item("SolveI", st=m.enum["ST_SAT"], ann=none, e=None), item="SolveI::sat")
    C.run("IncludeI", m.item("IncludeI", f='a".mzn', names=['a\\".mzn']), item="IncludeI")
    # declarations
    ti = []
    for bt in ("INT", "BOOL", "FLOAT"):
        for st in ("PLAIN", "SET"):
            for ot in ("PRESENT", "OPTIONAL"):
                for inst in ("VAR", "PAR"):
                    ti.append(("%s %s %s %s" % (inst, ot, st, bt), m.ti(type=m.type(bt, st, ot, inst)), inst, ot, st, bt))
    ti.append(("string", m.ti(type=m.type("STRING", ti="PAR")), "PAR", "PRESENT", "PLAIN", "STRING"))
    ti.append(("ann", m.ti(type=m.type("ANN", ti="PAR")), "PAR", "PRESENT", "PLAIN", "ANN"))
    for nm, t, inst, ot, st, bt in ti:
        want = ("var " if inst == "VAR" else "") + ("opt " if ot == "OPTIONAL" else "") + ("set of " if st == "SET" else "") + bt.lower() + ": x;\n"
        C.run("VarDeclI(%s)" % nm, m.item("VarDeclI", e=m.vardecl("x", ti=t)), item="VarDecl", expect=(want,))
        head = {"BOOL PLAIN PRESENT VAR": "predicate", "BOOL PLAIN PRESENT PAR": "test", "ANN PLAIN PRESENT PAR": "annotation"}.get(" ".join((bt, st, ot, inst)))
        C.run("FunctionI(%s)" % nm, starts=(head,) if head else ("function ",),  nomark=t if bt == "ANN" or (bt, st, ot) == ("BOOL", "PLAIN", "PRESENT") else None, obj=m.item("FunctionI", id="f", ti=t, e=a if bt != "ANN" else None, ann=none, capturedAnnotationsVar=None, names=["f"],
                                           params=[m.vardecl("p", ti=m.ti(type=m.type(bt, st, ot, inst))), m.vardecl("q r")]), item="FunctionI")
    for name, ck in kids["set"]:
        for an in ((), (m.id("an"),)):
            d = ck(list(an)) if an else ck()
            if name in ("ITE", "ITE2", "Let", "LetC", "Default", "Id", "Call", "Call0", "SetComp", "FieldAccess", "FieldName", "ArrayAccess", "ArrayAccess2") and an:
                continue
            C.run("VarDeclI.domain(%s%s)" % (name, " annotated" if an else ""), m.item("VarDeclI", e=m.vardecl("x", ti=m.ti(d))), item="VarDecl")
        C.run("VarDeclI.index(%s)" % name, m.item("VarDeclI", e=m.vardecl("x", ti=m.ti(ranges=[m.ti(ck(), type=m.type(ti="PAR")), m.ti(type=m.type(ti="PAR"))],
                                                                                     type=m.type(dim=2)))), item="VarDecl")
    C.run("VarDeclI annotated", m.item("VarDeclI", e=m.vardecl("x", ann=[m.id("an"), m.call("g", [m.string("s")])], e=a)), item="VarDecl")
    vi = m.vardecl("x", e=a)
    vi.at["introduced"] = True
    C.run("VarDeclI introduced", m.item("VarDeclI", e=vi), item="VarDecl")
    bti = m.ti(type=m.type("BOOL", ti="VAR"))   # written as the keyword predicate
    f = dict(id="a b", ti=bti, names=["a b"])
    C.run("FunctionI annotated", nomark=bti, obj=m.item("FunctionI", e=a, ann=m.ann([m.id("an"), m.call("g", [b])]), capturedAnnotationsVar=None, params=[m.vardecl("p")], **f), item="FunctionI")
    C.run("FunctionI captured annotations", nomark=bti, obj=m.item("FunctionI", e=a, ann=none, capturedAnnotationsVar=m.vardecl("ca"), nocheck=("capturedAnnotationsVar",),
                                                   params=[m.vardecl("p")], **f), item="FunctionI")
    C.run("FunctionI no parameters", nomark=bti, obj=m.item("FunctionI", e=a, ann=none, capturedAnnotationsVar=None, params=[], **f), item="FunctionI")
    C.run("FunctionI operator", m.item("FunctionI", e=a, ann=none, capturedAnnotationsVar=None, params=[m.vardecl("p"), m.vardecl("q")], id="'+'",
                                       ti=m.ti(type=m.type("BOOL", ti="VAR"))), item="FunctionI")


def three(C, kids, sl):
    """operators nested three deep"""
    m = C.m
    ops = [x for x in sl if "." not in x[0] or x[0].split(".")[0] in m.bots]
    leafs = ("UMINUS", "UPLUS", "NOT", "IntLit-", "FloatLit-", "Let", "ITE", "Default", "SetInf", "FloatUnion", "Array2d", "FieldAccess")
    res = {}
    for s, t, mk in ops:
        op = s.split(".")[0]
        res[s] = "bool" if op in BOOLOPS + CMP + SETREL + ("IN", "NOT") else "set" if op in SETOPS + ("DOTDOT",) else t if op == "PLUSPLUS" else "num"
    for s1, t1, mk1 in ops:
        for s2, t2, mk2 in ops:
            if res[s2] != t1:
                continue
            for name, ck in kids[t2]:
                if name in leafs:
                    C.run("%s(%s(%s))" % (s1, s2, name), mk1(mk2(ck())))
