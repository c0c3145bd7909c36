"""C06: each operator evaluates to its own meaning with operands in order."""
import os
import re

from ..facts import REPO, AnalysisError, last_name
from ..flow import strip
from ..algebra import Algebra, Sym, sym, term
from ..interp import Interp, Obj, UNK, GiveUp, Throw, Ref
from .c05 import Model

EXPLANATION = (
    "Finite-domain abstract interpretation of the evaluation functions: every operator with every operand type is evaluated on symbolic "
    "operands. Obligations: comparisons decide every relative order (less, equal, greater; for sets: order and inclusion) as the operator "
    "means; arithmetic yields exactly the operation's term over the operands in order; set operations give the right membership bit; "
    "logical connectives match their truth table; the comparison operators of IntVal and FloatVal are right for every combination of "
    "finite and infinite values; operator-name tables agree with the grammar's tokens and with the library's constraint names; every "
    "other decision over the operator kinds (negation, mirroring, bound tests, linear normal forms, domain restriction) computes a "
    "table consistent with the operator's meaning.")

N = "MiniZinc::"
CMP = ("LE", "LQ", "GR", "GQ", "EQ", "NQ")
FUN = {"LE": lambda a, b: a < b, "LQ": lambda a, b: a <= b, "GR": lambda a, b: a > b, "GQ": lambda a, b: a >= b, "EQ": lambda a, b: a == b,
       "NQ": lambda a, b: a != b}
BOOL = {"EQUIV": lambda a, b: a == b, "IMPL": lambda a, b: (not a) or b, "RIMPL": lambda a, b: a or (not b), "OR": lambda a, b: a or b,
        "AND": lambda a, b: a and b, "XOR": lambda a, b: a != b}
SETF = {"UNION": lambda a, b: a or b, "DIFF": lambda a, b: a and not b, "SYMDIFF": lambda a, b: a != b, "INTERSECT": lambda a, b: a and b}
ARITH = {"PLUS": "+", "MINUS": "-", "MULT": "*", "IDIV": "/", "DIV": "/", "MOD": "%", "POW": "pow"}
NEG = {"LE": "GQ", "GQ": "LE", "LQ": "GR", "GR": "LQ", "EQ": "NQ", "NQ": "EQ", "EQUIV": "XOR", "XOR": "EQUIV"}
MIRROR = {"LE": "GR", "GR": "LE", "LQ": "GQ", "GQ": "LQ"}
RENAME = {"EQ": "EQUIV", "NQ": "XOR", "LQ": "IMPL", "GQ": "RIMPL"}
DUAL = {"AND": "OR", "OR": "AND"}
VAL = re.compile(r"\b(IntVal|FloatVal)\b")


class Ev(object):
    """interpreter set up for one pair of operands"""

    def __init__(self, prog, model):
        self.prog, self.m = prog, model
        self.L = self.R = None
        consts = {}
        for k, v in model.kind.items():
            consts["MiniZinc::Expression::E_" + k] = v
        self.ip = Interp(prog, model.enum, {}, self.hook)
        self.ip.ocallhook = self.ocall
        self.ip.ctorhook = self.ctor
        self.ip.refhook = None
        self.cmpstate = None
        self.substate = None
        self.contains = None

    # ---- hooks
    def hook(self, ip, n, env, fn):
        m = n.mname
        a = n.args()
        if n.k == "call" and m and m.startswith("eval_") and len(a) >= 2:
            o = ip.val(a[1], env, fn)
            if isinstance(o, Obj) and "sym" in o.at:
                if m == "eval_par":
                    return (o,)
                if m == "eval_array_lit" or o.at.get("want", m) == m or m in o.at.get("alt", ()):
                    return (o.at["sym"],)
                return (UNK,)
            if isinstance(o, Obj) and o.kind == "BinOp" and "fresh" in o.at and m == "eval_bool":
                l, r = o.at["lhs"], o.at["rhs"]
                x, y = l.at.get("num"), r.at.get("num")
                nm = self.opname(o.at["op"])
                if x is None or y is None or nm not in FUN:
                    return (UNK,)
                return (FUN[nm](x, y),)
            if isinstance(o, Obj) and m == "eval_par":
                return (o,)
            return None
        if n.k == "call" and m == "equal" and len(a) == 2 and (n.cq or "").startswith("MiniZinc::Expression"):
            x, y = ip.val(a[0], env, fn), ip.val(a[1], env, fn)
            if isinstance(x, Obj) and isinstance(y, Obj) and "num" in x.at and "num" in y.at:
                return (x.at["num"] == y.at["num"],)
            return (UNK,)
        if n.k == "call" and m in ("less", "less_eq", "equal", "subset") and "Ranges::" in (n.cq or ""):
            x, y = ip.val(a[0], env, fn), ip.val(a[1], env, fn)
            if not (isinstance(x, Obj) and isinstance(y, Obj) and x.kind == y.kind == "set"):
                return (UNK,)
            return (self.setrel(m, x.at["name"], y.at["name"]),)
        if n.k == "call" and m == "ai" and a:
            return (ip.val(a[0], env, fn),)
        if n.k == "call" and m == "a" and re.search(r"::(IntSetVal|FloatSetVal)::a$", n.cq or "") and len([x for x in a if x.k != "darg"]) == 2:
            return (term("range", ip.val(a[0], env, fn), ip.val(a[1], env, fn)),)
        if n.k == "call" and m == "pow" and len(a) == 2:
            return (term("pow", ip.val(a[0], env, fn), ip.val(a[1], env, fn)),)
        if n.k == "mcall":
            r = ip.val(n.c[0], env, fn)
            if isinstance(r, Obj) and r.kind == "set":
                if m == "contains" and a:
                    x = ip.val(a[0], env, fn)
                    if isinstance(x, Sym):
                        return (self.contains if self.contains is not None else UNK,)
                return (UNK,)
            if Interp.issym(r):
                if m in ("toDouble", "toInt", "c_str"):
                    return (r,)
                if m == "pow" and a:
                    return (term("pow", r, ip.val(a[0], env, fn)),)
                if m == "isFinite":
                    return (True,)
                if m in ("isPlusInfinity", "isMinusInfinity"):
                    return (False,)
                return (UNK,)
        if n.k == "call" and m in ("isUnboxedInt", "isUnboxedFloatVal", "isUnboxedVal"):
            return (False,)
        if n.k == "call" and m in ("swap",) and len(a) == 2:
            x, y = ip.ev(a[0], env, fn), ip.ev(a[1], env, fn)
            if isinstance(x, Ref) and isinstance(y, Ref):
                vx, vy = x.get(), y.get()
                x.set(vy)
                y.set(vx)
                return (UNK,)
        return None

    def setrel(self, rel, x, y):
        if rel == "equal":
            return True if x == y else self.cmpstate == 0
        if x == y:
            return rel != "less"
        flip = (x, y) == ("R", "L")
        if rel in ("less", "less_eq"):
            c = -self.cmpstate if flip else self.cmpstate
            return c < 0 or (rel == "less_eq" and c == 0)
        s = self.substate
        return s == 0 or s == (2 if flip else 1)

    def ctor(self, ip, n, a, env, fn):
        q = n.cq or ""
        m = re.search(r"Ranges::(Union|Inter|Diff)<", q) or re.search(r"Ranges::(Union|Inter|Diff)::", q)
        if m and len(a) == 2:
            x, y = ip.val(a[0], env, fn), ip.val(a[1], env, fn)
            if isinstance(x, Obj) and isinstance(y, Obj) and "bit" in x.at and "bit" in y.at:
                p, r = x.at["bit"], y.at["bit"]
                b = {"Union": p or r, "Inter": p and r, "Diff": p and not r}[m.group(1)]
                return (Obj("set", bit=b, name="derived"),)
            return (UNK,)
        if "::BinOp::BinOp" in q and len(a) == 4:
            return (Obj("BinOp", fresh=True, lhs=ip.val(a[1], env, fn), op=ip.val(a[2], env, fn), rhs=ip.val(a[3], env, fn), type=self.m.type()),)
        if "::ArrayLit::ArrayLit" in q and len(a) == 2:
            v = ip.val(a[1], env, fn)
            if isinstance(v, list):
                return (Obj("ArrayLit", elems=v, size=len(v), type=self.m.type()),)
        if re.search(r"::vector<.*>::vector", q) and "initializer_list" not in ((n.x[0] if n.x else "") or ""):
            if a:
                x = ip.val(a[0], env, fn)
                if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 50:
                    return ([UNK] * x,)
                if isinstance(x, list):
                    return (list(x),)
            elif not a:
                return ([],)
        return None

    def ocall(self, ip, n, env, fn):
        m = n.mname
        if m in ("operator-", "operator*", "operator/", "operator%", "operator+") and len(n.c) == 2:
            x, y = ip.val(n.c[0], env, fn), ip.val(n.c[1], env, fn)
            if isinstance(x, str) or isinstance(y, str):
                return None
            return (ip.arith(m[8:], x, y),)
        if m in ("operator-", "operator+") and len(n.c) == 1:
            v = ip.val(n.c[0], env, fn)
            if Interp.issym(v):
                return (ip.alg.un(m[8:], v),)
            if isinstance(v, (int, float)):
                return (-v if m == "operator-" else v,)
            return (UNK,)
        if m in ("operator+=", "operator-=") and len(n.c) == 2:
            r = ip.ev(n.c[0], env, fn)
            v = ip.arith(m[8:9], ip.rv(r), ip.val(n.c[1], env, fn))
            if isinstance(r, Ref):
                r.set(v)
            return (v,)
        if m in ("operator++", "operator--") and n.c:
            r = ip.ev(n.c[0], env, fn)
            old = ip.rv(r)
            if isinstance(old, Obj) and old.kind == "iter":
                return None
            v = ip.arith("+" if m == "operator++" else "-", old, 1)
            if isinstance(r, Ref):
                r.set(v)
            return (old if len(n.c) == 2 else v,)
        if m == "operator()" and len(n.c) == 1:
            return (ip.val(n.c[0], env, fn),)
        if m in ("operator[]",) and len(n.c) == 2:
            o = ip.ev(n.c[0], env, fn)
            i = ip.val(n.c[1], env, fn)
            v = ip.rv(o)
            if isinstance(v, list) and isinstance(i, int):
                return (ElemRef(v, i),)
        return None

    def opname(self, v):
        for o in self.m.bots:
            if self.m.enum["BOT_" + o] == v:
                return o
        return None

    def run(self, fn, e, alg=None):
        """results over undecided branches: list of value or None for a throw"""
        self.ip.alg = alg or Algebra()
        out = []
        for r, pos in self.ip.runs(lambda i: (i.call(fn, [UNK, e]),)):
            out.append(None if r is None else r[0])
        return out


class ElemRef(Ref):
    def __init__(self, lst, i):
        self.lst, self.i = lst, i

    def get(self):
        return self.lst[self.i] if 0 <= self.i < len(self.lst) else UNK

    def set(self, v):
        if 0 <= self.i < len(self.lst):
            self.lst[self.i] = v


def mktype(m, bt, st="PLAIN", dim=0):
    t = m.type(bt, st, ti="PAR", dim=dim)
    a = t.at
    plain = st == "PLAIN" and dim == 0
    a.update(isint=plain and bt == "INT", isfloat=plain and bt == "FLOAT", isbool=plain and bt == "BOOL", isstring=plain and bt == "STRING",
             isIntSet=st == "SET" and bt in ("INT", "BOT") and dim == 0, isFloatSet=st == "SET" and bt in ("FLOAT", "BOT") and dim == 0,
             isBoolSet=st == "SET" and bt == "BOOL" and dim == 0, isSet=st == "SET" and dim == 0, isbot=bt == "BOT", isAnn=False, isPresent=True,
             isPar=True, isvar=False)
    a["structBT"] = bt in ("TUPLE", "RECORD")
    return t


def operand(m, name, bt, st="PLAIN", dim=0, val=None, **at):
    # an identifier: no evaluator has a short cut for it, the hooks give its value
    o = m.id(name)
    o.at["type"] = mktype(m, bt, st, dim)
    o.at["sym"] = val
    o.at.update(at)
    return o


def evaluators(prog):
    r = {}
    for name in ("eval_bool", "eval_int", "eval_float", "eval_intset", "eval_floatset", "eval_boolset", "eval_string", "eval_array_lit"):
        fs = [f for f in prog.fq(N + name) if f.cfg is not None and len(f.params) == 2]
        if len(fs) != 1:
            raise AnalysisError("evaluator %s not found" % name)
        r[name] = fs[0]
    return r


def rule_eval(ctx, prog, m):
    fns = evaluators(prog)
    ev = Ev(prog, m)

    def bo(op, l, r, type=None):
        o = m.binop(op, l, r)
        o.at["type"] = type or mktype(m, "BOOL")
        return o

    def judge(fn, key, op, expected, got, what):
        loc = fn.loc()
        if any(g is UNK for g in got):
            ctx.skip("%s: %s %s gives an undetermined value" % (fn.q, key, op))
            return
        if all(g is None for g in got):
            if expected is None:
                ctx.ok()
                return
            ctx.bad("%s:%s:%s" % (last_name(fn.q), key, op), loc, "%s: operator %s on %s is rejected" % (fn.q, op, key))
            return
        vals = [g for g in got if g is not None]
        good = all((g == expected) and (isinstance(g, bool) == isinstance(expected, bool) or not isinstance(expected, bool)) for g in vals)
        ctx.check(good, "%s:%s:%s" % (last_name(fn.q), key, op), loc,
                  "%s: %s %s: result %s, expected %s" % (fn.q, op, what, vals[0] if len(vals) == 1 else vals, expected), what=None)

    def attempt(fn, key, op, e, expected, what, alg=None):
        try:
            got = ev.run(fn, e, alg)
        except GiveUp as g:
            ctx.skip("%s %s %s: %s" % (fn.q, key, op, g))
            return
        ctx.count("operator evaluations")
        if isinstance(expected, bool):
            got = [bool(g) if isinstance(g, (bool, int)) else g for g in got]
        judge(fn, key, op, expected, got, what)

    # booleans
    f = fns["eval_bool"]
    for op in CMP + tuple(BOOL):
        for a in (False, True):
            for b in (False, True):
                L = operand(m, "l", "BOOL", val=a, want="eval_bool")
                R = operand(m, "r", "BOOL", val=b, want="eval_bool")
                attempt(f, "bool", op, bo(op, L, R), (FUN.get(op) or BOOL[op])(a, b), "of %s and %s" % (a, b))
    un = m.unop("NOT", operand(m, "l", "BOOL", val=True, want="eval_bool"))
    un.at["type"] = mktype(m, "BOOL")
    attempt(f, "bool", "NOT", un, False, "of true")
    # ordered types
    for bt, want in (("INT", "eval_int"), ("FLOAT", "eval_float"), ("STRING", "eval_string")):
        for op in CMP:
            for rl, rr, txt in ((0, 1, "l < r"), (1, 1, "l = r"), (2, 1, "l > r")):
                L = operand(m, "l", bt, val=sym("l"), want=want)
                R = operand(m, "r", bt, val=sym("r"), want=want)
                attempt(f, bt.lower(), op, bo(op, L, R), FUN[op](rl, rr), "with " + txt, Algebra({"l": rl, "r": rr}))
    # membership
    for bt, sw in (("INT", "eval_intset"), ("FLOAT", "eval_floatset")):
        for b in (False, True):
            ev.contains = b
            L = operand(m, "l", bt, val=sym("l"), want="eval_" + bt.lower())
            R = operand(m, "r", bt, "SET", val=Obj("set", name="R", bit=b), want=sw)
            attempt(f, bt.lower() + " in set", "IN", bo("IN", L, R), b, "for an element" if b else "for a non-element")
    # set relations
    for op in CMP + ("SUBSET", "SUPERSET"):
        for c in (-1, 0, 1):
            for s in (0, 1, 2, 3):
                if (s == 0) != (c == 0):
                    continue
                ev.cmpstate, ev.substate = c, s
                L = operand(m, "l", "INT", "SET", val=Obj("set", name="L", bit=False), want="eval_intset")
                R = operand(m, "r", "INT", "SET", val=Obj("set", name="R", bit=False), want="eval_intset")
                ex = FUN[op](c, 0) if op in FUN else s in (0, 1) if op == "SUBSET" else s in (0, 2)
                attempt(f, "set of int", op, bo(op, L, R), ex, "with order %d, inclusion %d" % (c, s))
    # tuples and records: lexicographic
    fl = ("TUPLE", "RECORD")
    for bt in fl:
        for op in CMP:
            for a in ((1, 1), (1, 2), (2, 1), (2, 2)):
                b = (1, 2)
                for x, y in ((a, b), (b, a)):
                    def al(t):
                        el = [operand(m, "e", "INT", num=v) for v in t]
                        return Obj("ArrayLit", elems=el, size=len(el), type=mktype(m, bt))
                    L = operand(m, "l", bt, val=al(x), want="eval_array_lit")
                    R = operand(m, "r", bt, val=al(y), want="eval_array_lit")
                    for o in (L, R):
                        for e_ in o.at["sym"].at["elems"]:
                            e_.at.pop("sym", None)
                    attempt(f, bt.lower(), op, bo(op, L, R), FUN[op](x, y), "of %s and %s" % (x, y))
    # equality of arrays
    for x, y in (((1, 2), (1, 2)), ((1, 2), (1, 3)), ((1, 2), (2, 2)), ((1, 2), (1,)), ((1,), (1, 2))):
        def al2(t):
            el = [operand(m, "e", "INT", num=v) for v in t]
            for e_ in el:
                e_.at.pop("sym", None)
            return Obj("ArrayLit", elems=el, size=len(el), type=mktype(m, "INT", dim=1))
        L = operand(m, "l", "INT", dim=1, val=al2(x), want="eval_array_lit")
        R = operand(m, "r", "INT", dim=1, val=al2(y), want="eval_array_lit")
        attempt(f, "array", "EQ", bo("EQ", L, R), x == y, "of %s and %s" % (x, y))
    # set operations
    for fname, bt in (("eval_intset", "INT"), ("eval_floatset", "FLOAT"), ("eval_boolset", "INT")):
        f = fns[fname]
        for op in SETF:
            for a in (False, True):
                for b in (False, True):
                    L = operand(m, "l", bt, "SET", val=Obj("set", name="L", bit=a), want=fname)
                    R = operand(m, "r", bt, "SET", val=Obj("set", name="R", bit=b), want=fname)
                    try:
                        got = ev.run(f, bo(op, L, R, mktype(m, bt, "SET")))
                    except GiveUp as g:
                        ctx.skip("%s %s: %s" % (f.q, op, g))
                        continue
                    ctx.count("operator evaluations")
                    got = [g.at["bit"] if isinstance(g, Obj) and "bit" in g.at else None if g is None else UNK for g in got]
                    judge(f, "set", op, SETF[op](a, b), got, "for an element %s left and %s right" % ("in" if a else "not in", "in" if b else "not in"))
    for fname, bt, w in (("eval_intset", "INT", "eval_int"), ("eval_floatset", "FLOAT", "eval_float")):
        L = operand(m, "l", bt, val=sym("l"), want=w)
        R = operand(m, "r", bt, val=sym("r"), want=w)
        attempt(fns[fname], "range", "DOTDOT", bo("DOTDOT", L, R, mktype(m, bt, "SET")), term("range", sym("l"), sym("r")), "of l and r")
    # arithmetic
    for fname, bt, ops in (("eval_int", "INT", ("PLUS", "MINUS", "MULT", "IDIV", "MOD", "POW")),
                           ("eval_float", "FLOAT", ("PLUS", "MINUS", "MULT", "DIV", "POW"))):
        f = fns[fname]
        for op in ops:
            for rank in ({"l": 2, "r": 3}, {"l": -3, "r": -2}, {"l": 5, "r": -1}, {"l": -4, "r": 2}):
                L = operand(m, "l", bt, val=sym("l"), want=fname)
                R = operand(m, "r", bt, val=sym("r"), want=fname)
                alg = Algebra(rank)
                ex = term("pow", sym("l"), sym("r")) if op == "POW" else alg.bin(ARITH[op], sym("l"), sym("r"))
                attempt(f, bt.lower(), op, bo(op, L, R, mktype(m, bt)), ex, "of l and r", alg)
        for op in ("PLUS", "MINUS"):
            u = m.unop(op, operand(m, "l", bt, val=sym("l"), want=fname))
            u.at["type"] = mktype(m, bt)
            alg = Algebra()
            attempt(f, bt.lower(), "unary " + op, u, sym("l") if op == "PLUS" else alg.un("-", sym("l")), "of l", alg)
    # strings and arrays
    L = operand(m, "l", "STRING", val="ab", want="eval_string")
    R = operand(m, "r", "STRING", val="c", want="eval_string")
    attempt(fns["eval_string"], "string", "PLUSPLUS", bo("PLUSPLUS", L, R, mktype(m, "STRING")), "abc", "of \"ab\" and \"c\"")
    for x, y in (((1, 2), (3,)), ((1,), ()), ((), (2, 3)), ((1,), (2, 3))):
        L = operand(m, "l", "INT", dim=1, val=Obj("ArrayLit", elems=list(x), size=len(x), flat=True, type=mktype(m, "INT", dim=1)), want="eval_array_lit")
        R = operand(m, "r", "INT", dim=1, val=Obj("ArrayLit", elems=list(y), size=len(y), flat=True, type=mktype(m, "INT", dim=1)), want="eval_array_lit")
        try:
            got = ev.run(fns["eval_array_lit"], bo("PLUSPLUS", L, R, mktype(m, "INT", dim=1)))
        except GiveUp as g:
            ctx.skip("array ++: %s" % g)
            continue
        ctx.count("operator evaluations")
        got = [g.at["elems"] if isinstance(g, Obj) and "elems" in g.at else None if g is None else UNK for g in got]
        judge(fns["eval_array_lit"], "array", "PLUSPLUS", list(x) + list(y), got, "of %s and %s" % (list(x), list(y)))


def rule_values(ctx, prog, m):
    """comparison and arithmetic operators of IntVal and FloatVal"""
    ops = {"operator==": FUN["EQ"], "operator!=": FUN["NQ"], "operator<": FUN["LE"], "operator<=": FUN["LQ"], "operator>": FUN["GR"],
           "operator>=": FUN["GQ"]}
    inf = float("inf")

    def val(cls, x):
        fin = x not in (inf, -inf)
        plus = x == inf
        v = x if fin else (1 if plus else -1)
        return Obj(cls, _v=v, _infinity=not fin, v=v, infinity=not fin, isFinite=fin, isPlusInfinity=plus, isMinusInfinity=not fin and not plus, toInt=v,
                   toDouble=v)
    ev = Ev(prog, m)

    def oc(ip, n, env, fn):
        q = n.cq or ""
        if n.mname in ops and len(n.c) == 2 and re.match(r"MiniZinc::operator", q):
            t = [x for x in prog.targets(n) if x.cfg is not None]
            if len(t) == 1:
                return (ip.call(t[0], [ip.val(n.c[0], env, fn), ip.val(n.c[1], env, fn)], None, env["depth"] + 1),)
        return None

    for cls in ("IntVal", "FloatVal"):
        for op, f in ops.items():
            fs = [g for g in prog.fq(N + op) if g.cfg is not None and len(g.params) == 2 and all(cls in (p[1] or "") for p in g.params)]
            for g in fs:
                for x in (-inf, 1, 2, inf):
                    for y in (-inf, 1, 2, inf):
                        try:
                            ev.ip.alg = Algebra()
                            rs = []
                            orig, ev.ip.ocallhook = ev.ip.ocallhook, lambda ip, n, env, fn: None
                            # operators between values call one another: follow them
                            old = Interp.ocall
                            ip = ev.ip
                            ip.ocall = lambda n, env, fn, _ip=ip: (lambda r: r[0] if r is not None else old(_ip, n, env, fn))(oc(_ip, n, env, fn))
                            try:
                                rs = [r for r, _ in ip.runs(lambda i: (i.call(g, [val(cls, x), val(cls, y)]),))]
                            finally:
                                del ip.ocall
                                ev.ip.ocallhook = orig
                        except GiveUp as e:
                            ctx.skip("%s: %s" % (g.q, e))
                            continue
                        if len(rs) != 1 or rs[0] is None or rs[0][0] is UNK:
                            ctx.skip("%s(%s, %s, %s): undetermined" % (op, cls, x, y))
                            continue
                        ctx.count("value comparisons")
                        ctx.check(bool(rs[0][0]) == f(x, y), "value:%s:%s" % (cls, op), g.loc(), "%s of %s: %s and %s gives %s" % (op, cls, x, y, bool(rs[0][0])))


# ------------------------------------------------------------------ operator name tables
WORDS = {"LE": "lt", "LQ": "le", "GR": "gt", "GQ": "ge", "EQ": "eq", "NQ": "ne", "PLUS": "plus", "MINUS": "minus", "MULT": "times", "DIV": "div",
         "IDIV": "div", "MOD": "mod", "IN": "in", "SUBSET": "subset", "SUPERSET": "superset", "UNION": "union", "DIFF": "diff", "SYMDIFF": "symdiff",
         "INTERSECT": "intersect", "OR": "or", "AND": "and", "EQUIV": "eq", "IMPL": "le", "RIMPL": "ge", "XOR": "ne"}


def id_table(prog):
    """member path of Constants::ids -> string"""
    tab = {}
    for f in prog.fq("MiniZinc::Constants::Constants"):
        if f.cfg is None:
            continue
        for n in f.walk():
            if n.k == "ocall" and n.mname == "operator=" and len(n.c) == 2 or n.k == "bin" and n.x[0] == "=":
                p = mempath(n.c[0])
                if p is None:
                    continue
                s = [x.x[0] for x in n.c[1].walk() if x.k == "str"]
                if len(s) == 1:
                    tab[p] = s[0]
    return tab


def mempath(n):
    n = strip(n)
    parts = []
    while n is not None and n.k == "mem":
        nm = n.x[0].split("::")[-1]
        if nm == "ids":
            return ".".join(reversed(parts))
        parts.append(nm)
        if not n.c:
            return None
        n = strip(n.c[0])
    return None


class TableEv(Ev):
    def __init__(self, prog, model, ids):
        Ev.__init__(self, prog, model)
        self.ids = ids
        ip = self.ip
        base = ip.ev

        def ev2(n, env, fn):
            if n.k == "mem":
                p = mempath(n)
                if p in ids:
                    return ids[p]
            return Interp.ev(ip, n, env, fn)
        ip.ev = ev2


def op_tokens(m):
    """operator -> spellings the reader accepts for it"""
    from ..lexspec import Spec
    from ..grammar import Grammar
    g = Grammar(os.path.join(REPO, "lib/parser.yxx"))
    sp = Spec(os.path.join(REPO, "lib/lexer.lxx"))
    lit = {}
    for r in sp.rules:
        l = r.literal
        if r.token and l is not None:
            lit.setdefault(g.symbol(r.token), set()).add(l)
    out = {}
    for k, (lhs, rhs) in enumerate(g.rules):
        ops = set(re.findall(r"\bBOT_([A-Z]+)", g.action.get(k, "")))
        if len(ops) == 1 and len(rhs) == 3 and rhs[1] in lit:
            out.setdefault(ops.pop(), set()).update(lit[rhs[1]])
    if len(out) < 20:
        raise AnalysisError("operator tokens of the grammar not recognised")
    return out


def rule_tables(ctx, prog, m):
    ids = id_table(prog)
    if len(ids) < 100:
        ctx.skip("table of predefined names not recognised")
        return
    # predefined names: the reified twin has the base name plus _reif
    for p, s in sorted(ids.items()):
        g = re.match(r"(int|float|bool|set)_reif\.(.*)$", p)
        if g:
            b = ids.get("%s_.%s" % (g.group(1), g.group(2)))
            if b is not None:
                ctx.count("predefined names")
                ctx.check(s == b + "_reif", "ids:%s" % p, "lib/ast.cpp", "the name stored for ids.%s is \"%s\" but the unreified one is \"%s\"" % (p, s, b))
        g = re.match(r"(int|float|bool|set)_\.(lin_)?(lt|le|gt|ge|eq|ne|plus|minus|times|div|mod|in|subset|superset|union_|diff|symdiff|intersect|or_|and_|card)$", p)
        if g:
            ctx.count("predefined names")
            w = g.group(3).rstrip("_")
            ex = "%s_%s%s" % (g.group(1), g.group(2) or "", w)
            if ex == "bool_ne":
                ex = "bool_xor"
            ctx.check(s == ex, "ids:%s" % p, "lib/ast.cpp", "the name stored for ids.%s is \"%s\", expected \"%s\"" % (p, s, ex))
    te = TableEv(prog, m, ids)
    te.ip.alg = Algebra()

    def call(f, args):
        out = []
        for r, pos in te.ip.runs(lambda i: (i.call(f, args),)):
            out.append(None if r is None else r[0])
        return out
    # operator -> builtin constraint
    for f in prog.fq("MiniZinc::op_to_builtin"):
        if f.cfg is None or len(f.params) != 4:
            continue
        for bt, pre in (("INT", "int"), ("FLOAT", "float"), ("BOOL", "bool"), ("SET", "set")):
            for op in m.bots:
                ty = mktype(m, "INT", "SET") if bt == "SET" else mktype(m, bt)
                L, R = m.id("l"), m.id("r")
                L.at["type"] = R.at["type"] = ty
                try:
                    got = call(f, [UNK, L, R, m.enum["BOT_" + op]])
                except GiveUp as g:
                    ctx.skip("op_to_builtin %s: %s" % (op, g))
                    continue
                if any(x is UNK for x in got):
                    ctx.skip("op_to_builtin %s %s undetermined" % (pre, op))
                    continue
                ctx.count("operator names")
                for x in got:
                    if x is None:
                        continue
                    ex = "pow" if op == "POW" else "%s_%s" % (pre, WORDS.get(op, "?"))
                    if ex == "bool_ne":
                        ex = "bool_xor"
                    ctx.check(x == ex, "op_to_builtin:%s:%s" % (pre, op), f.loc(), "operator %s on %s is mapped to \"%s\", expected \"%s\"" % (op, pre, x, ex))
                if bt in ("INT", "FLOAT", "BOOL", "SET") and op in CMP:
                    ctx.check(any(x is not None for x in got), "op_to_builtin:%s:%s:missing" % (pre, op), f.loc(), "operator %s on %s has no constraint" % (op, pre))
    toks = m.optokens
    # operator -> name of its function
    for f in prog.fq("MiniZinc::op_to_id"):
        if f.cfg is None:
            continue
        for op in m.bots:
            try:
                got = call(f, [m.enum["BOT_" + op]])
            except GiveUp as g:
                ctx.skip("op_to_id %s: %s" % (op, g))
                continue
            if len(got) != 1 or not isinstance(got[0], str):
                ctx.skip("op_to_id %s undetermined" % op)
                continue
            if got[0] == "":
                continue
            ctx.count("operator names")
            ctx.check(got[0].strip("'") in toks[op] and got[0] == "'%s'" % got[0].strip("'"), "op_to_id:%s" % op, f.loc(),
                      "operator %s is called %s" % (op, got[0]))
    # opToString of BinOp / UnOp: names held by static table object
    strs = {}
    for f in prog.F.values():
        if f.cfg is None or not f.q.endswith("OpToString::OpToString"):
            continue
        for n in f.walk():
            if n.k in ("bin", "ocall") and len(n.c) == 2 and (n.x[0] == "=" or n.mname == "operator="):
                l = strip(n.c[0])
                if l.k == "mem":
                    s = [x.x[0] for x in n.c[1].walk() if x.k == "str"]
                    if len(s) == 1:
                        strs[l.x[0].split("::")[-1]] = s[0]
    if strs:
        te2 = Ev(prog, m)
        ip = te2.ip

        def ev3(n, env, fn):
            if n.k == "mem" and n.x[0].split("::")[-1] in strs:
                return Obj("StringLit", v=strs[n.x[0].split("::")[-1]])
            return Interp.ev(ip, n, env, fn)
        ip.ev = ev3
        ip.alg = Algebra()
        for cls, names, pre, tk in (("BinOp", m.bots, "BOT_", toks), ("UnOp", ("NOT", "PLUS", "MINUS"), "UOT_", {"NOT": ("not",), "PLUS": ("+",), "MINUS": ("-",)})):
            for f in prog.fq("MiniZinc::%s::opToString" % cls):
                if f.cfg is None:
                    continue
                for op in names:
                    try:
                        got = [r[0] if r else None for r, _ in ip.runs(lambda i: (i.call(f, [], Obj(cls, op=m.enum[pre + op], _secondaryId=m.enum[pre + op])),))]
                    except GiveUp as g:
                        ctx.skip("opToString %s: %s" % (op, g))
                        continue
                    if len(got) != 1 or not isinstance(got[0], str):
                        ctx.skip("opToString %s undetermined" % op)
                        continue
                    ctx.count("operator names")
                    s = got[0].strip("'")
                    ctx.check(s in tk[op], "opToString:%s:%s" % (cls, op), f.loc(), "operator %s has the name \"%s\"" % (op, got[0]))


# ------------------------------------------------------------------ other decisions over operators
def is_bot(n):
    return any("BinOpType" in (x.type or "") for x in n.walk())


def botname(m, v):
    for o in m.bots:
        if m.enum["BOT_" + o] == v:
            return o
    return None


class SwitchEv(Ev):
    """executes one switch statement with given values of what it reads"""

    def __init__(self, prog, m, ids, fn, sw):
        Ev.__init__(self, prog, m)
        self.fn, self.sw, self.ids = fn, sw, ids
        self.ip.alg = Algebra()
        self.vals = {}
        ip = self.ip

        def ev2(n, env, f):
            if n.k == "mem":
                p = mempath(n)
                if p in ids:
                    return ids[p]
            return Interp.ev(ip, n, env, f)
        ip.ev = ev2
        self.ip.refhook = self.ref
        self.extra = None

    def ref(self, n, env, fn):
        return self.vals.get((n.x[0] if n.x[0] == "p" else "v", n.x[2]))

    def hook(self, ip, n, env, fn):
        if self.extra is not None:
            r = self.extra(ip, n, env, fn)
            if r is not None:
                return r
        return Ev.hook(self, ip, n, env, fn)

    def ocall(self, ip, n, env, fn):
        if n.mname == "operator()" and len(n.c) == 1:
            return (ip.val(n.c[0], env, fn),)
        return Ev.ocall(self, ip, n, env, fn)

    def execute(self, vals):
        self.vals = vals
        out = []

        def start(ip):
            env = {"this": None, "depth": 0}
            for k in rw(self.sw)[1]:
                env[k] = UNK
            env.update({k: v for k, v in vals.items()})
            ret = None
            try:
                ip.stmt(self.sw, env, self.fn)
            except Exception as e:
                if type(e).__name__ == "Return":
                    ret = (e.v,)
                else:
                    raise
            return env, ret
        for r, pos in self.ip.runs(start):
            out.append(r)
        return out


def vkey(n):
    return ("p" if n.x[0] == "p" else "v", n.x[2])


def rw(sw):
    """variables read / written inside a switch: key -> (name, type)"""
    reads, writes = {}, {}
    for n in sw.c[3].walk():
        if n.k == "ref" and n.x[0] in ("v", "p"):
            p = n.p
            w = False
            if p is not None and p.k == "bin" and p.x[0] == "=" and p.c[0] is n:
                w = True
            if p is not None and p.k == "ocall" and p.mname == "operator=" and p.c and p.c[0] is n:
                w = True
            (writes if w else reads)[vkey(n)] = (n.x[1], n.type or "")
            if p is not None and (p.k == "un" and p.x[0] in ("++", "--", "p++", "p--") or p.k == "ocall" and p.mname in ("operator++", "operator--", "operator+=", "operator-=")):
                writes[vkey(n)] = (n.x[1], n.type or "")
    return reads, writes


def rule_switches(ctx, prog, m):
    ids = id_table(prog)
    seen = set()
    for f in sorted(prog.F.values(), key=lambda f: f.q):
        if f.cfg is None or not f.file or f.file.startswith("/") or "prettyprinter" in f.file or re.search(r"::eval_\w+$", f.q):
            continue
        for sw in f.walk():
            if sw.k != "switch" or not is_bot(sw.c[2]):
                continue
            sel = strip(sw.c[2])
            reads, writes = rw(sw)
            ctx.count("operator switches")
            botw = [k for k, (nm, t) in writes.items() if "BinOpType" in t]
            boolw = [k for k, (nm, t) in writes.items() if t == "bool"]
            exw = [k for k, (nm, t) in writes.items() if re.match(r"(MiniZinc::)?Expression \*$", t)]
            valrw = [k for k, (nm, t) in list(reads.items()) + list(writes.items()) if VAL.search(t) and "Set" not in t]
            valrw = sorted(set(valrw))
            bounds = [k for k, (nm, t) in reads.items() if re.search(r"\bBounds\b|IntBounds|FloatBounds", t)]
            selkeys = [vkey(x) for x in sel.walk() if x.k == "ref" and x.x[0] in ("v", "p") and "BinOpType" in (x.type or "")]
            where = f.loc(sw)
            short = "%s#%s" % (f.q.split("::")[-1].split("<")[0], "")
            se = SwitchEv(prog, m, ids, f, sw)
            try:
                if bounds and len(boolw) == 2 and len(valrw) == 1:
                    bound_tests(ctx, m, se, f, sw, selkeys, bounds[0], valrw[0], boolw)
                elif len(boolw) == 1 and len(valrw) == 1 and not botw:
                    value_tests(ctx, m, se, f, sw, selkeys, valrw[0], boolw[0])
                elif exw and botw and len(valrw) == 1:
                    normal_form(ctx, prog, m, se, f, sw, selkeys, exw, valrw[0])
                elif any("ASTString" in t for nm, t in writes.values()) and any(t.replace("&", "").strip() == "int" for nm, t in writes.values()):
                    linear(ctx, m, se, f, sw, selkeys, reads, writes)
                elif last_name(f.q) == "limitDomain":
                    limit(ctx, m, se, f, sw, selkeys)
                elif any("ASTString" in t for nm, t in writes.values()) and not botw:
                    names(ctx, m, se, f, sw, selkeys, writes)
                elif botw:
                    mapping(ctx, m, se, f, sw, sel, selkeys, botw)
                else:
                    ctx.skip("%s: decision over operators not of a recognised form" % where)
            except GiveUp as g:
                ctx.skip("%s: %s" % (where, g))


def key_of(f, sw, what):
    return "%s:%s" % (f.q.split("::")[-1], what)


def bound_tests(ctx, m, se, f, sw, selkeys, bk, vk, boolw):
    names_ = {}
    for n in f.walk():
        if n.k == "ref" and n.x[0] == "v" and vkey(n) in boolw:
            names_[vkey(n)] = n.x[1]
    orient = None
    rows = []
    for op in CMP:
        for l in range(4):
            for u in range(l, 4):
                for d in range(4):
                    vals = {k: m.enum["BOT_" + op] for k in selkeys}
                    vals[bk] = Obj("Bounds", l=l, u=u, valid=True)
                    vals[vk] = d
                    vals[boolw[0]] = vals[boolw[1]] = False
                    for env, ret in se.execute(vals):
                        rows.append((op, l, u, d, env.get(boolw[0]), env.get(boolw[1])))
    if any(x is UNK for r in rows for x in r[4:]):
        ctx.skip("%s: bound test undetermined" % f.loc(sw))
        return

    def bad(row, flip):
        op, l, u, d, a, b = row
        if flip:
            a, b = b, a
        sat = [FUN[op](x, d) for x in range(l, u + 1)]
        # only end points are reachable for certain, inner values may be holes: always true / always false
        if a and not all(sat):
            return "%s with bounds %d..%d and %d counts as always true" % (op, l, u, d)
        if b and any(sat):
            return "%s with bounds %d..%d and %d counts as always false" % (op, l, u, d)
        return None
    bads = [[r for r in rows if bad(r, fl)] for fl in (False, True)]
    fl = len(bads[1]) < len(bads[0])
    per = {}
    for r in rows:
        per.setdefault(r[0], []).append(bad(r, fl))
    for op in CMP:
        errs = [e for e in per[op] if e]
        ctx.count("bound tests")
        ctx.check(not errs, key_of(f, sw, "bounds:" + op), f.loc(sw), "%s: %s" % (f.q, errs[0] if errs else ""))


def value_tests(ctx, m, se, f, sw, selkeys, vk, bk):
    infs = any(n.mname in ("isPlusInfinity", "isMinusInfinity") for n in sw.c[3].walk() if n.is_call())
    inf = float("inf")
    dom = (inf, -inf) if infs else (-1, 0, 1)
    res = {}
    for op in CMP:
        for v in dom:
            vals = {k: m.enum["BOT_" + op] for k in selkeys}
            vals[bk] = UNK
            vals[vk] = Obj("Val", isPlusInfinity=v == inf, isMinusInfinity=v == -inf, isFinite=False) if infs else v
            r = se.execute(vals)
            if len(r) != 1 or r[0][0].get(bk) is UNK:
                ctx.skip("%s: %s undetermined" % (f.loc(sw), op))
                return
            res[op, v] = bool(r[0][0].get(bk))
    # which side: an infinite constant is the left operand if it was evaluated from the earlier parameter
    cands = {"left": lambda op, v: FUN[op](v, 0), "right": lambda op, v: FUN[op](0, v)}
    if infs:
        side = operand_side(f, vk)
        if side:
            cands = {side: cands[side]}
    else:
        cands = {"left": cands["left"]}
    errs = {k: [(op, v) for op in CMP for v in dom if res[op, v] != c(op, v)] for k, c in cands.items()}
    best = min(errs, key=lambda k: len(errs[k]))
    ctx.count("constant tests", 6)
    for op in CMP:
        e = [v for o, v in errs[best] if o == op]
        ctx.check(not e, key_of(f, sw, "constant:%s:%s" % ("infinite" if infs else "sum", op)), f.loc(sw),
                  "%s: operator %s decided as %s for the constant %s as %s operand" % (f.q, op, res.get((op, e[0])) if e else "", e[0] if e else "", best))


def operand_side(f, vk):
    """is a local evaluated from the first or the second expression parameter"""
    eps = [p for p, (nm, t) in enumerate([(p[0], p[1]) for p in f.params]) if re.match(r"(MiniZinc::)?Expression \*$", t or "")]
    for n in f.walk():
        if n.k == "var" and ("v", n.x[1]) == vk and n.c:
            ps = [x.x[2] for x in n.c[0].walk() if x.k == "ref" and x.x[0] == "p" and x.x[2] in eps]
            if len(ps) == 1 and len(eps) == 2:
                return "left" if ps[0] == eps[0] else "right"
    return None


def normal_form(ctx, prog, m, se, f, sw, selkeys, exw, vk):
    if len(exw) != 2:
        ctx.skip("%s: form not recognised" % f.loc(sw))
        return
    order = {}
    for n in f.walk():
        if n.k == "var" and ("v", n.x[1]) in exw:
            order[("v", n.x[1])] = n.id if hasattr(n, "id") else len(order)
    e0, e1 = sorted(exw, key=lambda k: k[1])
    for isint in (True, False):
        for op in CMP:
            errs = []
            for x in range(4):
                for d in range(4):
                    X = Obj("Id", num=x, type=mktype(m, "INT" if isint else "FLOAT"))

                    def extra(ip, n, env, fn):
                        if n.k == "call" and n.mname == "newLit" and n.args():
                            v = ip.val(n.args()[0], env, fn)
                            return (Obj("Lit", num=v),) if isinstance(v, int) else (UNK,)
                        return None
                    se.extra = extra
                    vals = {k: m.enum["BOT_" + op] for k in selkeys}
                    vals[vk] = d
                    for n in sw.c[3].walk():
                        if n.k == "ref" and n.x[0] in ("v", "p") and "vector" in (n.type or ""):
                            vals[vkey(n)] = [X]
                    for env, ret in se.execute(vals):
                        a, b, o = env.get(e0), env.get(e1), env.get(selkeys[0])
                        if not isinstance(a, Obj) or not isinstance(b, Obj) or "num" not in a.at or "num" not in b.at:
                            ctx.skip("%s: %s undetermined" % (f.loc(sw), op))
                            return
                        if FUN[botname(m, o)](a.at["num"], b.at["num"]) != FUN[op](x, d):
                            errs.append("x %s %d becomes a different constraint (x = %d)" % (op, d, x))
            ctx.count("normal forms")
            ctx.check(not errs, key_of(f, sw, "normal:%s:%s" % ("int" if isint else "float", op)), f.loc(sw), "%s: %s" % (f.q, errs[0] if errs else ""))


def linear(ctx, m, se, f, sw, selkeys, reads, writes):
    """operator over a linear sum s + d: name of the constraint, sign of the coefficients and constant"""
    isint = "IntLit" in f.q or not "FloatLit" in f.q
    ck = [k for k, (nm, t) in writes.items() if "ASTString" in t][0]
    sk = [k for k, (nm, t) in writes.items() if t.replace("&", "").strip() == "int"][0]
    vks = sorted(set(k for k, (nm, t) in list(reads.items()) + list(writes.items()) if VAL.search(t)))
    if len(vks) != 1:
        ctx.skip("%s: linear form not recognised" % f.loc(sw))
        return
    rel = {"lin_le": FUN["LQ"], "lin_lt": FUN["LE"], "lin_eq": FUN["EQ"], "lin_ne": FUN["NQ"]}
    for op in CMP:
        errs = []
        for s in range(-3, 4):
            for d in range(-2, 3):
                vals = {k: m.enum["BOT_" + op] for k in selkeys}
                vals[vks[0]] = d
                for env, ret in se.execute(vals):
                    c, sg, nd = env.get(ck), env.get(sk), env.get(vks[0])
                    if not isinstance(c, str) or not isinstance(sg, int) or nd is UNK:
                        ctx.skip("%s: %s undetermined" % (f.loc(sw), op))
                        return
                    w = c.split("_", 1)[1] if "_" in c else c
                    if w not in rel:
                        ctx.skip("%s: constraint %s unknown" % (f.loc(sw), c))
                        return
                    if rel[w](sg * s + nd, 0) != FUN[op](s + d, 0):
                        errs.append("operator %s on a sum becomes %s with sign %s and constant %s from %s" % (op, c, sg, nd, d))
                    if c.split("_")[0] != ("int" if isint else "float"):
                        errs.append("operator %s on %s values becomes %s" % (op, "int" if isint else "float", c))
        ctx.count("linear forms")
        ctx.check(not errs, key_of(f, sw, "linear:%s" % op), f.loc(sw), "%s: %s" % (f.q, errs[0] if errs else ""))


def limit(ctx, m, se, f, sw, selkeys):
    """restriction of a domain by an operator and a constant"""
    params = {("p", i): (p[0], p[1]) for i, p in enumerate(f.params)}
    dk = [k for k, (nm, t) in params.items() if "SetVal" in (t or "")]
    vk = [k for k, (nm, t) in params.items() if re.search(r"\b(Int|Float)Val\b", t or "") and "Set" not in t]
    if len(dk) != 1 or len(vk) != 1:
        ctx.skip("%s: parameters not recognised" % f.loc())
        return
    isint = "Int" in params[vk[0]][1]

    def ctor(ip, n, a, env, fn):
        q = n.cq or ""
        g = re.search(r"Ranges::(Const|Diff|Inter|Union)<", q) or re.search(r"Ranges::(Const|Diff|Inter|Union)::", q)
        if g:
            x = [ip.val(y, env, fn) for y in a]
            if g.group(1) == "Const" and all(isinstance(y, int) for y in x) and len(x) == 2:
                return (frozenset(range(x[0], x[1] + 1)),)
            if len(x) == 2 and all(isinstance(y, frozenset) for y in x):
                return ({"Diff": x[0] - x[1], "Inter": x[0] & x[1], "Union": x[0] | x[1]}[g.group(1)],)
            return (UNK,)
        return None
    se.ip.ctorhook = ctor

    def extra(ip, n, env, fn):
        if n.k == "call" and n.mname in ("maxiter", "miniter") and len(n.args()) == 2:
            s, v = ip.val(n.args()[0], env, fn), ip.val(n.args()[1], env, fn)
            if isinstance(s, frozenset) and isinstance(v, (int, float)):
                return (frozenset(x for x in s if (x <= v if n.mname == "maxiter" else x >= v)),)
            return (UNK,)
        if n.k == "call" and n.mname == "ai" and n.args():
            return (ip.val(n.args()[0], env, fn),)
        return None
    se.extra = extra
    dom = frozenset((0, 1, 3, 4, 6))
    for op in CMP:
        if op == "EQ":
            continue
        errs = []
        for v in range(-1, 8):
            r = [x for x, _ in se.ip.runs(lambda ip: (ip.call(f, [m.enum["BOT_" + op] if ("p", i) in selkeys else dom if ("p", i) == dk[0] else v if ("p", i) == vk[0] else UNK
                                                                  for i in range(len(f.params))]),))]
            for x in r:
                if x is None or x[0] is None:
                    continue
                if not isinstance(x[0], frozenset):
                    ctx.skip("%s: %s undetermined" % (f.loc(), op))
                    return
                ex = frozenset(y for y in dom if FUN[op](y, v))
                if x[0] != ex:
                    errs.append("restricting %s by x %s %d gives %s" % (sorted(dom), op, v, sorted(x[0])))
        ctx.count("domain restrictions")
        ctx.check(not errs, key_of(f, sw, "limit:%s" % op), f.loc(), "%s: %s" % (f.q, errs[0] if errs else ""))


COUNT = {"count_eq": "EQ", "count_neq": "NQ", "count_leq": "GQ", "count_lt": "GR", "count_geq": "LQ", "count_gt": "LE"}


def names(ctx, m, se, f, sw, selkeys, writes):
    """operator -> constraint over (.., right operand): the count constraints state `operand op count`"""
    ck = [k for k, (nm, t) in writes.items() if "ASTString" in t][0]
    for op in CMP:
        vals = {k: m.enum["BOT_" + op] for k in selkeys}
        vals[ck] = ""
        for env, ret in se.execute(vals):
            c = env.get(ck)
            if c == "":
                continue
            if c not in COUNT:
                ctx.skip("%s: %s gives name %s" % (f.loc(sw), op, c))
                continue
            ctx.count("counting constraints")
            ctx.check(COUNT[c] == op, key_of(f, sw, "count:%s" % op), f.loc(sw), "%s: `number of occurrences %s y` becomes %s(x, v, y), which states the relation %s" %
                      (f.q, op, c, COUNT[c]))


def mapping(ctx, m, se, f, sw, sel, selkeys, botw):
    """operator -> operator: all changed operators of one decision change in the same way"""
    fam = {"negation": NEG, "mirror image": MIRROR, "logical name": RENAME, "dual": DUAL}
    if len(botw) != 1:
        ctx.skip("%s: several operators written" % f.loc(sw))
        return
    changes = {}
    for op in m.bots:
        # statements of the case only: which constants may be assigned to the operator there
        vals = set()
        for b in case_body(sw, m.enum["BOT_" + op]):
            for n in b.walk():
                if n.k == "bin" and n.x[0] == "=" and strip(n.c[0]).k == "ref" and vkey(strip(n.c[0])) == botw[0]:
                    r = strip(n.c[1])
                    if r.k == "ref" and r.x[0] == "e":
                        swapped = any(x.is_call() and x.mname == "swap" for x in b.walk())
                        vals.add((botname(m, r.x[3]), swapped))
        for v in vals:
            changes.setdefault(op, set()).add(v)
    if not changes:
        return
    flat = [(a, b) for a, vs in changes.items() for b, s in vs if b != a]
    if all(s for vs in changes.values() for b, s in vs):
        for a, b in flat:
            ctx.count("operator maps")
            # the operands are exchanged, so the operator must become its mirror image
            ctx.check(MIRROR.get(a, a) == b, key_of(f, sw, "map:%s" % a), f.loc(sw), "%s: with the operands exchanged %s becomes %s" % (f.q, a, b))
        return
    fits = {k: sum(1 for a, b in flat if t.get(a) == b) for k, t in fam.items()}
    best = max(sorted(fits), key=lambda k: fits[k])
    if fits[best] == 0:
        ctx.skip("%s: %s: no known relation between operators" % (f.loc(sw), flat))
        return
    for a, b in flat:
        ctx.count("operator maps")
        ctx.check(fam[best].get(a) == b, key_of(f, sw, "map:%s" % a), f.loc(sw), "%s: %s becomes %s, but the other operators become their %s" % (f.q, a, b, best))
    if fits[best] >= 3 and best in ("negation", "mirror image"):
        for a in ("LE", "LQ", "GR", "GQ"):
            ctx.check(a in changes, key_of(f, sw, "map:%s" % a), f.loc(sw), "%s: %s is not replaced by its %s" % (f.q, a, best))


def case_body(sw, v):
    """statements executed for a case label (following fall-through)"""
    body = sw.c[3]
    seq = body.c if body.k == "{" else [body]
    out, on = [], False
    for s in seq:
        lab = s
        while lab is not None and lab.k in ("case", "default"):
            if lab.k == "case" and lab.x[0] == v:
                on = True
            nxt = lab.c[0] if lab.c else None
            lab = nxt
        if on:
            t = s
            while t is not None and t.k in ("case", "default"):
                t = t.c[0] if t.c else None
            if t is not None:
                out.append(t)
                if t.k in ("break", "return") or t.k == "{" and t.c and t.c[-1].k in ("break", "return"):
                    break
    return out


def rule_negation(ctx, prog, m):
    """where the operator is replaced when a negation is pushed inwards without a switch"""
    for f in prog.F.values():
        if f.cfg is None or not f.file or f.file.startswith("/"):
            continue
        for n in f.walk():
            # x = (y == A ? B : A): exchanging the two connectives
            if n.k == "?:" and strip(n.c[1]).k == "ref" and strip(n.c[2]).k == "ref" and strip(n.c[1]).x[0] == "e" and strip(n.c[2]).x[0] == "e":
                b, c = botname_of(m, strip(n.c[1])), botname_of(m, strip(n.c[2]))
                q = strip(n.c[0])
                if b is None or c is None or q.k != "bin" or q.x[0] != "==":
                    continue
                rs = [strip(x) for x in q.c if strip(x).k == "ref" and strip(x).x[0] == "e"]
                if len(rs) == 1 and botname_of(m, rs[0]) in ("AND", "OR"):
                    ctx.count("operator maps")
                    a = botname_of(m, rs[0])
                    ctx.check({a, b} == {"AND", "OR"} and c == a, key_of(f, n, "dual"), f.loc(n), "%s: %s becomes %s and everything else %s" % (f.q, a, b, c))


def botname_of(m, n):
    return last_name(n.x[2])[4:] if n.k == "ref" and n.x[0] == "e" and last_name(n.x[2]).startswith("BOT_") and last_name(n.x[2])[4:] in m.bots else None


def rule_propagated(ctx, prog, m):
    """the operator a constraint `a <= b` (or its negation) imposes on the variable operand"""
    for f in prog.fq("MiniZinc::simplify_constraint") + [x for x in prog.F.values() if x.file and x.file.endswith("lib/optimize.cpp")]:
        if f.cfg is None:
            continue
        for n in f.walk():
            if n.k != "?:" or n.p is not None and n.p.k == "?:":
                continue
            leaves = []

            def go(x, conds):
                x = strip(x)
                if x.k == "?:":
                    go(x.c[1], conds + [(strip(x.c[0]), True)])
                    go(x.c[2], conds + [(strip(x.c[0]), False)])
                else:
                    leaves.append((conds, x))
            go(n, [])
            if len(leaves) != 4 or any(botname_of(m, l) is None for c, l in leaves):
                continue
            tab = {}
            okf = True
            for conds, l in leaves:
                left = truth = None
                for c, v in conds:
                    ar = [x for x in c.walk() if x.is_call() and x.mname == "arg"]
                    if ar:
                        i = strip(ar[0].args()[0])
                        left = v if i.k == "int" and i.x[0] == 0 else not v
                    elif c.k == "ref":
                        truth = v if "true" in c.x[1] else (not v if "false" in c.x[1] else None)
                if left is None or truth is None:
                    okf = False
                else:
                    tab[left, truth] = botname_of(m, l)
            if not okf or len(tab) != 4:
                ctx.skip("%s: table of four operators not recognised" % f.loc(n))
                continue
            ex = {(True, True): "LQ", (True, False): "GR", (False, True): "GQ", (False, False): "LE"}
            for k in ex:
                ctx.count("operator maps")
                ctx.check(tab[k] == ex[k], key_of(f, n, "le:%s:%s" % k), f.loc(n), "%s: `a <= b` being %s restricts its %s operand by %s" %
                          (f.q, k[1], "left" if k[0] else "right", tab[k]))


def check(ctx):
    prog = ctx.prog
    m = Model(prog)
    m.optokens = op_tokens(m)
    rule_eval(ctx, prog, m)
    rule_values(ctx, prog, m)
    rule_tables(ctx, prog, m)
    rule_switches(ctx, prog, m)
    rule_negation(ctx, prog, m)
    rule_propagated(ctx, prog, m)
    ctx.need("operator evaluations", 150)
    ctx.need("value comparisons", 100)
    ctx.need("operator names", 60)
    ctx.need("operator switches", 15)
