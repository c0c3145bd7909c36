"""C26: every kind is handled or rejected where kinds are distinguished."""
import os
import re
from ..facts import REPO
from ..flow import strip, canon
from ..kinds import Universe, Kinds, nkey
from .c01 import kind_constants

EXPLANATION = (
    "Every switch of the program is split into sections; a section that can reach its end and run into the handling of another kind is reported unless a comment or "
    "attribute marks it as meant. For switches over enumerations, each enumerator has to be named in a section that does something, covered by a default that does "
    "something (handles or rejects), or by the code after the switch when all sections leave; the few decisions that pass over kinds on purpose are a table with the "
    "handled kinds they presuppose. Independently, a may-analysis of the kinds a node can have (switch labels, isa tests, kind comparisons, dynamic casts) decides "
    "for every cast to a node class under such a test that only nodes of that class arrive.")

SENTINEL = re.compile(r"(^|_)(END|ENDFLAG|NUM|LAST|COUNT)$")
NORET = {"abort", "exit", "_exit", "terminate", "__builtin_unreachable", "unreachable", "longjmp", "__assert_fail"}


def noreturn(prog, key, memo, depth=0):
    """does the function never return normally?"""
    if key in memo:
        return memo[key]
    memo[key] = False
    g = prog.F.get(key)
    if g is None or g.body is None or depth > 4:
        return False
    if any(n.k == "return" for n in g.walk()):
        return False
    memo[key] = stops(prog, g.body, memo, depth + 1)
    return memo[key]


def stops(prog, s, memo, depth=0, loops=True):
    """does control never reach the end of statement s? (break and continue leave it, too)"""
    if s is None:
        return False
    k = s.k
    if k in ("return", "break", "continue", "throw", "goto"):
        return True
    if k == "{":
        return any(stops(prog, c, memo, depth) for c in s.c)
    if k == "if":
        return s.c[4] is not None and stops(prog, s.c[3], memo, depth) and stops(prog, s.c[4], memo, depth)
    if k in ("case", "default", "label", "attr"):
        return bool(s.c) and stops(prog, s.c[-1], memo, depth)
    if k == "do":
        # do { ... } while (0) around a macro
        return _leaves(prog, s.c[0], memo, depth)
    if k in ("for", "while"):
        cond = s.c[2] if k == "for" else s.c[1]
        c = strip(cond) if cond is not None else None
        endless = c is None or c.k == "null" or (c.k == "bool" and c.x[0]) or (c.k == "int" and str(c.x[0]) != "0")
        return endless and not _has_break(s.c[-1])
    if k == "try":
        return all(stops(prog, c.c[-1] if c.k == "catch" and c.c else c, memo, depth) for c in s.c if c is not None and c.k != "null")
    if k == "switch":
        secs = sections(s)
        if secs is None or not any(None in labs for labs, _ in secs):
            return False
        if _has_break(s.c[3]):
            return False
        return bool(secs) and any(stops(prog, x, memo, depth) for x in secs[-1][1])
    if k in ("for", "while", "rfor", "decl", "null", ";"):
        return False
    e = strip(s)
    if e.k == "throw":
        return True
    if e.is_call():
        if (e.mname or "") in NORET:
            return True
        tg = prog.targets(e)
        return bool(tg) and all(noreturn(prog, t if isinstance(t, str) else t.key, memo, depth) for t in tg)
    if e.k == "bin" and e.x[0] == ",":
        return any(stops(prog, c, memo, depth) for c in e.c)
    return False


def _leaves(prog, s, memo, depth):
    """like stops, but a break only leaves the do loop itself"""
    if s is None:
        return False
    if s.k in ("break", "continue"):
        return False
    if s.k == "{":
        return any(_leaves(prog, c, memo, depth) for c in s.c)
    if s.k == "if":
        return s.c[4] is not None and _leaves(prog, s.c[3], memo, depth) and _leaves(prog, s.c[4], memo, depth)
    return stops(prog, s, memo, depth)


def _has_break(s):
    st = [s]
    while st:
        n = st.pop()
        if n is None:
            continue
        if n.k == "break":
            return True
        if n.k in ("for", "while", "do", "rfor", "switch", "lambda"):
            continue
        st += [c for c in n.c if c is not None]
    return False


def sections(sw):
    """[(labels: case nodes or None for default, statements)] of a switch in source order; None when it has another form"""
    body = sw.c[3]
    if body is None or body.k != "{":
        return None
    out = []

    def add(s):
        if s is None:
            return True
        if s.k in ("case", "default"):
            labs = []
            while s is not None and s.k in ("case", "default"):
                labs.append(s if s.k == "case" else None)
                s = s.c[-1] if s.c else None
            out.append((labs, [s] if s is not None and s.k != "null" else []))
            return True
        if not out:
            return s.k == "decl"
        out[-1][1].append(s)
        return True
    for s in body.c:
        if not add(s):
            return None
    # labels without statements of their own belong to the next section
    res = []
    pend = []
    for labs, sts in out:
        if not sts:
            pend += labs
        else:
            res.append((pend + labs, sts))
            pend = []
    if pend:
        res.append((pend, []))
    return res


def empty(s):
    """does the statement do nothing?"""
    if s is None:
        return True
    if s.k in ("break", "null", ";"):
        return True
    if s.k == "{":
        return all(empty(c) for c in s.c)
    e = s
    while e.k in ("cast", "icast", "paren", "ccast", "fcast") and e.c:
        e = e.c[-1]
    return e.k in ("int", "bool", "null")


def silent(sts):
    return all(empty(s) for s in sts)


# (enumeration, handled enumerators that must be present) -> enumerators that may be passed over without effect, and why
ALLBIN = "BOT_PLUS BOT_MINUS BOT_MULT BOT_DIV BOT_IDIV BOT_MOD BOT_POW BOT_LE BOT_LQ BOT_GR BOT_GQ BOT_EQ BOT_NQ BOT_IN BOT_SUBSET BOT_SUPERSET BOT_UNION BOT_DIFF BOT_SYMDIFF BOT_INTERSECT BOT_PLUSPLUS BOT_EQUIV BOT_IMPL BOT_RIMPL BOT_OR BOT_AND BOT_XOR BOT_DOTDOT"
LEAVES = "E_ANON E_BOOLLIT E_FLOATLIT E_INTLIT E_STRINGLIT E_TIID E_ID"
INNER = "E_ARRAYACCESS E_ARRAYLIT E_BINOP E_CALL E_COMP E_FIELDACCESS E_ITE E_LET E_SETLIT E_TI E_UNOP E_VARDECL"
SILENT = [
    ("BinOpType", "BOT_EQ BOT_GQ BOT_GR BOT_LE BOT_LQ BOT_NQ", ALLBIN, "only comparisons reach linear constraints and count"),
    ("BinOpType", "BOT_GQ BOT_GR BOT_LE BOT_LQ", ALLBIN, "mirrored when operands are exchanged; the others are symmetric or not rewritten"),
    ("BinOpType", "BOT_GQ BOT_GR", ALLBIN, "the two comparisons rewritten into their mirror images"),
    ("BinOpType", "BOT_EQ BOT_NQ BOT_LQ BOT_GQ", ALLBIN, "comparisons of Booleans with a logical equivalent; < and > have none"),
    ("BinOpType", "BOT_AND BOT_OR", ALLBIN, "De Morgan; the other operators are negated further down"),
    ("ExpressionId", INNER, LEAVES, "kinds without children"),
    ("ExpressionId", "E_CALL E_VARDECL", INNER + " " + LEAVES, "only declarations and calls have entries of their own on the call stack"),
    ("ExpressionId", "E_ARRAYLIT E_ID", INNER + " " + LEAVES, "flat array declarations are literals or names"),
    ("EnumConstrType", "CT_Comparison CT_SetIn", "CT_Encode", "encodings are replaced afterwards"),
    ("UnOpType", "UOT_MINUS UOT_NOT", "UOT_PLUS", "unary plus keeps the bounds"),
    ("ItemId", "II_CON II_OUT II_SOL II_VD", "II_ASN II_FUN II_INC", "flat models have no such items with occurrences"),
    ("CSIType", "CSI_REDUNDANT CSI_SYMMETRY CSI_VD", "CSI_NONE", "nothing to undo"),
    ("BaseType", "BT_BOT BT_FLOAT BT_RECORD BT_TOP BT_TUPLE BT_UNKNOWN", "BT_ANN BT_BOOL BT_INT BT_STRING", "nothing stands in the way of a table"),
    ("BaseType", "BT_ANN BT_BOT BT_FLOAT BT_RECORD BT_STRING BT_TOP BT_TUPLE BT_UNKNOWN", "BT_BOOL BT_INT", "nothing stands in the way of lex constraints"),
    ("BaseType", "BT_BOOL BT_INT BT_RECORD BT_TUPLE", "BT_ANN BT_BOT BT_FLOAT BT_STRING BT_TOP BT_UNKNOWN", "excluded by the test for tables and lex constraints"),
    ("BaseType", "BT_BOOL BT_FLOAT BT_INT", "BT_ANN BT_BOT BT_STRING BT_TOP BT_UNKNOWN BT_TUPLE BT_RECORD", "equalities of other types are not simplified"),
    ("BaseType", "BT_BOT", "BT_INT BT_FLOAT", "sets of integers and floats need no correction of the element type"),
    ("TokenT", "T_STRING T_OBJ_OPEN", "T_COMMA", "commas separate elements"),
    ("OptionStatus", "OPTION_FINISH", "OPTION_OK", "go on"),
    ("LinConType", "GQ LQ", "EQ", "both bounds stay at the right-hand side"),
    ("SolveType", "ST_MAX ST_MIN", "ST_SAT", "no objective to branch on"),
    ("Bound", "LB LB_UB NONE UB", "EQ", "already fixed"),
    ("Bound", "EQ LB_UB", "LB NONE UB", "only ranges and equations are counted"),
]

# sections that run into the next one on purpose without a comment: (file, from, to, why)
RUNS_ON = [
    ("lib/flatten/flatten_binop.cpp", "BOT_AND", "BOT_OR", "user-defined operators share the handling of the last case"),
    ("lib/flatten/flatten_binop.cpp", "BOT_OR", "BOT_PLUS", "user-defined operators share the handling of the last case"),
    ("lib/flatten/flatten_binop.cpp", "BOT_PLUS", "BOT_MINUS", "user-defined operators share the handling of the last case"),
    ("lib/flatten/flatten_binop.cpp", "BOT_MINUS", "BOT_MULT", "user-defined operators share the handling of the last case"),
]


def _maxline(n):
    m = n.line
    st = [n]
    while st:
        x = st.pop()
        m = max(m, x.line or 0)
        st += [c for c in x.c if c is not None]
    return m


def _marked(f, sts, label):
    """is there a comment or attribute saying that running on is meant?"""
    try:
        lines = open(os.path.join(REPO, f.file), errors="replace").read().split("\n")
    except OSError:
        return False
    lo = max(_maxline(s) for s in sts if s is not None)
    txt = "\n".join(lines[lo - 1:label.line])
    return re.search(r"fall[\s_-]*(s\s+)?thr(ough|u)|falls?\s+thr", txt, re.I) is not None


def _partly(prog, sts, memo):
    """does the section end in a conditional whose taken branch leaves?"""
    last = [s for s in sts if s is not None][-1]
    while last.k in ("{", "case") and last.c:
        last = last.c[-1]
    return last.k == "if" and (last.c[4] is None or last.c[4].k == "null") and stops(prog, last.c[3], memo)


def enum_of(prog, n):
    t = (strip(n).type or "").replace("const ", "").replace("enum ", "").strip(" &")
    return t if t in prog.E else None


def follow(sw):
    """the statements executed after the switch in its block"""
    p = sw.p
    if p is None or p.k != "{":
        return None
    i = [id(c) for c in p.c].index(id(sw))
    return p.c[i + 1:]


def lab_name(l):
    return "default" if l is None else (l.x[1] or str(l.x[0])).split("::")[-1]


def switch_checks(ctx):
    prog = ctx.prog
    memo = {}
    seen = set()
    for f in prog.F.values():
        if f.body is None or not f.file.startswith(("lib/", "solvers/", "include/", "minizinc")) or "thirdparty" in f.file:
            continue
        for sw in f.walk():
            if sw.k != "switch":
                continue
            loc = f.loc(sw)
            if loc in seen:
                continue
            seen.add(loc)
            secs = sections(sw)
            if not secs:
                ctx.skip("switch of unusual form at %s" % loc)
                continue
            ctx.count("switches")
            for i in range(len(secs) - 1):
                labs, sts = secs[i]
                if silent(sts) and sts and not any(x is not None and x.k == "break" for x in sts) and not secs[i][1]:
                    continue
                ctx.count("sections")
                nxt = secs[i + 1]
                fl = nxt[0][0]
                if silent(nxt[1]):
                    ctx.ok()
                    continue
                ok = any(stops(prog, x, memo) for x in sts)
                if not ok:
                    lab = fl if fl is not None else [x for x in sw.c[3].c if x is not None and x.k == "default"][0] if any(x is not None and x.k == "default" for x in sw.c[3].c) else sw
                    ok = _marked(f, sts, lab)
                a, b = lab_name(labs[-1]), lab_name(fl)
                if not ok and _partly(prog, sts, memo) and any(e[0] == f.file and e[1] == a and e[2] == b for e in RUNS_ON):
                    ok = True
                ctx.check(ok, "fallthrough:%s:%s:%s" % (f.q, a, b), f.loc(sts[-1]) if sts else loc,
                          "the handling of %s runs on into the handling of %s" % (a, b), None)
            en = enum_of(prog, sw.c[2])
            if en is None:
                continue
            ctx.count("switches over enumerations")
            allv = dict((q, int(v)) for q, v in prog.E[en]["vals"])
            handled, dropped, dflt = set(), set(), None
            for labs, sts in secs:
                for l in labs:
                    if l is None:
                        dflt = sts
                        continue
                    v = int(l.x[0]) if l.x[0] is not None else None
                    qs = [q for q, w in allv.items() if w == v]
                    (dropped if silent(sts) else handled).update(qs)
            rest = set(q for q in allv if q not in handled and q not in dropped)
            if dflt is not None and not silent(dflt):
                rest = set()
            quiet = set(q.split("::")[-1] for q in rest | dropped)
            quiet = set(q for q in quiet if not SENTINEL.search(q))
            if quiet:
                # the code after the switch only runs for the others: it is their handling
                if all(any(stops(prog, x, memo) and not (x.k == "break") and not _has_break(x) for x in sts)
                       for labs, sts in secs if not silent(sts)) and not any(labs for labs, sts in secs if silent(sts) and labs[-1] is not None and 0):
                    fo = follow(sw)
                    if fo and not all(empty(x) for x in fo):
                        ctx.count("decisions completed by the code after the switch")
                        ctx.ok()
                        continue
            h = set(q.split("::")[-1] for q in handled)
            for e, need, may, why in SILENT:
                if e == en.split("::")[-1] and set(need.split()) <= h:
                    quiet -= set(may.split())
            ctx.check(not quiet, "silent:%s:%s" % (f.q, en.split("::")[-1]), loc,
                      "%s of %s handled nor rejected [handled: %s]" % (", ".join(sorted(quiet)), en.split("::")[-1] + (" is neither" if len(quiet) == 1 else " are neither"), " ".join(sorted(h))), None)


def cast_checks(ctx):
    prog = ctx.prog
    u = Universe(prog, kind_constants(prog))
    names = {}
    for e in ("MiniZinc::Expression::ExpressionId", "MiniZinc::Item::ItemId"):
        for q, v in prog.E[e]["vals"]:
            names.setdefault((e.split("::")[1][0], int(v)), q.split("::")[-1])
    seen = set()
    for f in prog.F.values():
        if f.body is None or f.cfg is None:
            continue
        cs = [(n, c) for n in f.walk() for c in [u.cast_of(n)] if c and c[0] == "cast"]
        if not cs:
            continue
        ks = None
        for n, c in cs:
            loc = f.loc(n)
            if ks is None:
                ks = Kinds(u, f)
            key = nkey(c[2], c[3])
            got = ks.kinds(n, key)
            v = u.byclass[c[1]]
            if got is None:
                ctx.count("casts relying on what the type system established")
                continue
            ctx.count("casts of a node whose possible kinds are tested")
            small = len(got) <= len(u.all[c[3]]) // 2
            ctx.check(v in got and (not small or got == {v}), "cast:%s:%s" % (f.q, c[1]), loc,
                      "a node that may be %s is cast to %s" % (", ".join(sorted(names.get((c[3], x), str(x)) for x in got if x != v)[:8]), c[1]),
                      None)


def check(ctx):
    switch_checks(ctx)
    cast_checks(ctx)
    ctx.need("switches", 150)
    ctx.need("switches over enumerations", 100)
    ctx.need("casts of a node whose possible kinds are tested", 1000)
