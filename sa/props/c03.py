"""C03: structural equality, hash and order of expressions."""
import re
from ..facts import AnalysisError
from ..flow import Env, strip, canon, controlling, bind, block_of, node_block, local_defs
from ..prov import all_fields
from ..pairs import PEnv, sites_in, sig, side, path, is_false, is_true
from ..must import null_test
from .c01 import simp, full_loop, kind_constants

EXPLANATION = (
    "Two-sided comparison analysis of Expression::equal and its per-kind part: for every component field in the class "
    "definition of each expression kind, the same access path of both operands is compared, element loops are full and "
    "sizes are compared, every path to a non-false return passes the comparison, and a difference can only lead to false. "
    "Hashing reads only components that equality compares; no hash and no structural order in the interprocedural closure "
    "looks at a pointer value; the structural order compares the same access path on both sides with antisymmetric results.")

N = "MiniZinc::"
EX = N + "Expression"
# component fields that do not take part in equality: (class, field): reason
EXEMPT = {
    ("BinOp", "_decl"): "cache of the operator's function, determined by operator and operand types",
    ("UnOp", "_decl"): "cache of the operator's function",
    ("BinOp", "_placeholder"): "padding", ("VarDecl", "_flat"): "link to the flat version", ("VarDecl", "_payload"): "index",
    ("Let", "_letOrig"): "saved original right-hand sides", ("Id", "_vOrIdn"): "alternative below", ("Id", "_decl"): "alternative below",
    ("SetLit", "_v"): "alternative below", ("SetLit", "_u"): "alternative below", ("Call", "_uId"): "below",
    ("Call1", "_data"): "", ("Call2", "_data"): "", ("Call3", "_data"): "", ("Call4", "_data"): "below", ("CallNary", "_args"): "below",
    ("ArrayLit", "_u"): "below", ("TIId", "_v"): "two type variables are never equal",
}
# kind -> list of requirements: (name, predicate on (fields, signature)); a requirement may have alternatives
FLAGS = {"BinOp": "_secondaryId", "UnOp": "_secondaryId", "Comprehension": "_flag1"}
NEVER = ("AnonVar", "TIId")


def elem(pa):
    """the access path selects one element of a sequence"""
    return re.search(r"operator\[\]|\[|arg\(\w+#|\w\(\w+#\d+\)|min\(|max\(|\*\(|begin|#\d+$", pa) is not None


def requirements(prog, consts):
    """class -> list of (name, test(site info)) ; site info = (fields, text, is element)"""
    req = {}
    for c, v in consts.items():
        s = c.split("::")[-1]
        if EX not in prog.bases(c) or c == EX:
            continue
        r = req.setdefault(v, [])
        for f in prog.C[c]["fields"]:
            if (s, f[0]) in EXEMPT:
                continue
            fld = c + "::" + f[0]
            vec = "Vec" in f[1]
            if vec:
                r.append((s + "." + f[0] + " elements", [lambda i, fld=fld: fld in i[0] and i[2]]))
                if f[0] != "_gIndex":  # its size is part of the hash, which is compared first
                    r.append((s + "." + f[0] + " size", [lambda i, fld=fld: fld in i[0] and not i[2]]))
            else:
                r.append((s + "." + f[0], [lambda i, fld=fld: fld in i[0]]))
        if s in FLAGS:
            fl = FLAGS[s]
            r.append((s + "." + fl, [lambda i, fl=fl: any(x.endswith("::" + fl) for x in i[0])]))
        if s == "Call":
            r.append(("Call name", [lambda i: "id" in i[0]]))
            r.append(("Call declaration", [lambda i: "decl" in i[0] and "id" not in i[0]]))
            r.append(("Call arguments", [lambda i: any(x.endswith("Call4::_data") for x in i[0]) and i[2]]))
            r.append(("Call argument count", [lambda i: any(x.endswith("CallNary::_args") for x in i[0]) and not i[2]]))
        if s == "ArrayLit":
            r.append(("ArrayLit elements", [lambda i: N + "ArrayLit::_u" in i[0] and i[2]]))
            r.append(("ArrayLit size", [lambda i: N + "ArrayLit::_u" in i[0] and not i[2]]))
        if s == "SetLit":
            r.append(("SetLit contents", [lambda i: "isv" in i[0] or "fsv" in i[0] or (N + "SetLit::_v" in i[0] and i[2])]))
        if s == "Id":
            r.append(("Id declaration or name", [lambda i: N + "Id::_decl" in i[0] and "val" not in i[0] and "idn" not in i[0],
                                                  lambda i: "val" in i[0]]))
            r.append(("Id declaration or number", [lambda i: N + "Id::_decl" in i[0] and "val" not in i[0] and "idn" not in i[0],
                                                    lambda i: "idn" in i[0]]))
    return req


class Cmp(object):
    """one comparison function (equal-like) analysed in a given environment"""

    def __init__(self, prog, fn, env, ctx, prop, depth=0):
        self.prog, self.fn, self.env, self.ctx, self.prop = prog, fn, env, ctx, prop
        self.sites = sites_in(fn, env)
        self.info = {}
        self.depth = depth
        self.sub = {}
        for s in self.sites:
            fs = set(simp(x) for x in all_fields(prog, s.a, env)) | set(simp(x) for x in all_fields(prog, s.b, env))
            el = elem(s.pa) or any(p.k in ("for", "while", "do", "rfor") for p in s.node.ancestors())
            self.info[s.node.id] = (fs, s.pa, el, strip(s.a).type or "")
            # comparison delegated to a function of this program
            if s.node.k in ("call", "mcall") and depth < 3:
                for t in prog.targets(s.node):
                    if t.q in (EX + "::equal", EX + "::equalInternal", EX + "::compare") or t.ret not in ("bool", "int") or t.key in env.chain():
                        continue
                    if t.file == fn.file and len(t.nodes) < 1500 and len(t.params) >= 2:
                        e2 = bind(prog, env, s.node, t)
                        self.sub[s.node.id] = Cmp(prog, t, e2, ctx, prop, depth + 1)
        # comparisons delegated to lambdas or helpers with other arities
        for n in fn.nodes:
            if n.is_call() and n.id not in self.info and depth < 3 and n.k in ("call", "mcall", "ocall"):
                ps = [path(a, env) for a in n.c]
                sides = set(side(p) for p in ps)
                if 0 in sides and 1 in sides:
                    for t in prog.targets(n):
                        if t.ret in ("bool", "int") and t.key not in env.chain() and t.file == fn.file:
                            self.sub[n.id] = Cmp(prog, t, bind(prog, env, n, t), ctx, prop, depth + 1)

    def covers(self, nid, tests):
        i = self.info.get(nid)
        if nid in self.sub:
            s = self.sub[nid]
            if s.must(tests, [s.fn.entry]):
                return True
        return i is not None and any(t(i) for t in tests)

    def must(self, tests, starts):
        """every path from starts to a non-false return passes a comparison satisfying one of tests"""
        fn = self.fn
        bl = fn.cfg
        bof = block_of(fn)
        hit = set()
        loops_ok = True
        ids = set(self.info) | set(self.sub)
        for nid in ids:
            if not self.covers(nid, tests):
                continue
            n = fn.nodes[nid]
            b = node_block(n)
            if b is not None:
                hit.add(b)
            for p in n.ancestors():
                if p.k in ("for", "while", "do", "rfor"):
                    if full_loop(p) is False:
                        loops_ok = False
                        continue
                    # reaching the loop is enough: no element, no comparison needed
                    c = p.c[2] if p.k == "for" else p.c[1] if p.k == "while" else None
                    if c is not None:
                        hb = node_block(strip(c)) if node_block(strip(c)) is not None else node_block(c)
                        if hb is not None:
                            hit.add(hb)
                        # leaf conditions of the loop head
                        for x in c.walk():
                            if x.id in bof:
                                hit.add(bof[x.id])
                    if p.k == "rfor":
                        for b2 in bl.values():
                            t = b2.term
                            if t and t[0] == "CXXForRangeStmt" and t[1] == p.id:
                                hit.add(b2.id)
        if not hit or not loops_ok:
            return False
        seen, st = set(), list(starts)
        while st:
            b = st.pop()
            if b in seen or b in hit:
                continue
            seen.add(b)
            ret = None
            for el in bl[b].elems:
                if not isinstance(el, list) and fn.nodes[el].k == "return":
                    ret = fn.nodes[el]
            if ret is not None:
                if not ret.c:
                    continue
                if is_false(ret.c[0]) or self.constant_difference(ret.c[0]):
                    continue
                if self.trivially_same(b, ret):
                    continue
                return False
            t = bl[b].term
            for k, x in enumerate(bl[b].succs):
                if x < 0:
                    continue
                if k == 1 and t and t[0] == "BinaryOperator" and len(bl[b].succs) == 2 and fn.nodes[t[1]].x[0] == "&&":
                    # return a && b: the value is false when a is
                    q = fn.nodes[t[1]]
                    while q is not None and (q.k in ("icast", "cast") or q.k == "bin" and q.x[0] == "&&"):
                        q = q.p
                    if q is not None and (q.k in ("return", "var") or q.k == "bin" and q.x[0] == "="):
                        continue
                st.append(x)
        return True

    def constant_difference(self, n):
        n = strip(n)
        while n.k == "un" and n.x[0] == "-":
            n = strip(n.c[0])
        if n.k == "int" and int(n.x[0]) != 0:
            return True
        return False

    def trivially_same(self, b, ret):
        """returned when the two objects are the very same one"""
        for cond, kind, lab, term in controlling(ret):
            if cond is None or kind == "switch":
                continue
            for m in cond.walk():
                i = self.info.get(m.id)
                if i is not None and not i[0]:
                    return True
        for m in ret.walk():
            i = self.info.get(m.id)
            if i is not None and not (set(i[0]) - {"d", "bits", "p"}):
                return True
        return False

    def polarity(self, exempt=()):
        """a difference at any comparison leads to false; yields (site, problem)"""
        fn, bl = self.fn, self.fn.cfg
        for s in self.sites:
            n = s.node
            if n.id in self.sub:
                for x in self.sub[n.id].polarity(exempt):
                    yield x
            if s.op in ("<", ">", "<=", ">=", "-"):
                continue
            i = self.info[n.id]
            if not i[0]:
                continue  # identity of the whole objects
            if any(t(i) for t in exempt):
                continue
            differs = s.op == "!="   # truth value of n when the components differ
            # climb to the statement
            ch, p, ok, tv = n, n.p, None, differs
            while p is not None:
                if p.k in ("icast", "cast", "darg") or p.k == "ctor" and len(p.c) == 1:
                    pass
                elif p.k == "un" and p.x[0] == "!":
                    tv = not tv
                elif p.k == "bin" and p.x[0] == "&&":
                    if tv:
                        ok = ("if-and", p)
                        break
                elif p.k == "bin" and p.x[0] == "||":
                    if not tv:
                        ok = ("or", p)
                        break
                elif p.k == "return":
                    ok = ("ret", tv)
                    break
                elif p.k in ("if", "while", "for", "?:", "do"):
                    ok = ("branch", p, tv)
                    break
                elif p.k in ("bin", "ocall") and (p.x[0] if p.k == "bin" else p.mname[8:]) in ("==", "!=") and any(
                        strip(c).k in ("bool",) for c in p.c):
                    o = [strip(c) for c in p.c if strip(c).k == "bool"][0]
                    if (bool(o.x[0])) != ((p.x[0] if p.k == "bin" else p.mname[8:]) == "=="):
                        tv = not tv
                else:
                    ok = ("other", p)
                    break
                ch, p = p, p.p
            if ok is None or ok[0] == "other":
                yield s, None
                continue
            if ok[0] == "ret":
                yield s, ("a difference returns true" if ok[1] else "")
                continue
            if ok[0] in ("or", "if-and"):
                yield s, "another condition can outvote the difference"
                continue
            p, tv = ok[1], ok[2]
            # successor taken when they differ
            bad = None
            found = False
            for b in bl.values():
                t = b.term
                if not t or t[2] < 0 or len(b.succs) != 2:
                    continue
                c = fn.nodes[t[2]]
                if any(x is n for x in c.walk()):
                    # innermost condition containing the site
                    tv2 = differs
                    q = n
                    while q is not c and q is not None:
                        q = q.p
                        if q is not None and q.k == "un" and q.x[0] == "!":
                            tv2 = not tv2
                    if c.k == "un" and c.x[0] == "!" and False:
                        pass
                    inner = c
                    if c.k == "bin" and c.x[0] in ("&&", "||"):
                        continue
                    found = True
                    succ = b.succs[0 if tv2 else 1]
                    r = self.only_false(succ)
                    if r is not None:
                        bad = r
            if not found:
                # whole condition only
                for b in bl.values():
                    t = b.term
                    if t and t[2] >= 0 and len(b.succs) == 2 and t[1] == p.id:
                        found = True
                        r = self.only_false(b.succs[0 if tv else 1])
                        if r is not None:
                            bad = r
            yield s, (bad or "") if found else None

    def only_false(self, start):
        fn, bl = self.fn, self.fn.cfg
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b < 0:
                continue
            seen.add(b)
            ret = None
            for el in bl[b].elems:
                if not isinstance(el, list) and fn.nodes[el].k == "return":
                    ret = fn.nodes[el]
            if ret is not None:
                if ret.c and not is_false(ret.c[0]):
                    e = strip(ret.c[0])
                    # return a && b: the block is also where the short-circuit result arrives
                    if e.k == "bin" and e.x[0] == "&&" and b != start:
                        continue
                    if e.k == "bin" and e.x[0] == "&&" and b == start:
                        continue
                    if e.k == "int" or self.constant_difference(e):
                        continue
                    return "a difference does not lead to false (line %d)" % ret.line
                continue
            st.extend(x for x in bl[b].succs if x >= 0)
        return None


def kind_of_site(n):
    labs = []
    for cond, kind, lab, term in controlling(n):
        if kind == "switch" and lab is not None and lab.k == "case" and cond is not None and "ExpressionId" in (strip(cond).type or ""):
            labs.append(lab)
    return labs


def case_blocks(fn):
    """kind value -> block ids where its case starts"""
    out = {}
    for b in fn.cfg.values():
        if b.label >= 0:
            l = fn.nodes[b.label]
            x = l
            while x is not None and x.k == "case":
                if x.x[0] is not None:
                    out.setdefault(int(x.x[0]), set()).add(b.id)
                x = x.p if x.p is not None and x.p.k == "case" else None
    return out


def check_pairs(ctx, cmpf, what):
    """the same access path is read on both sides"""
    prog = ctx.prog
    for s in cmpf.sites:
        ctx.count("comparison_sites")
        a, b = sig(s.pa), sig(s.pb)
        if a == b:
            ctx.ok()
            continue
        fa = set(simp(x) for x in all_fields(prog, s.a, s.env))
        fb = set(simp(x) for x in all_fields(prog, s.b, s.env))
        if fa != fb:
            ctx.bad("%s:pair:%s" % (what, a), s.node.fn.loc(s.node),
                    "%s compares different components of the two expressions: %s with %s" % (what, s.pa, s.pb))
        elif re.sub(r"[^+\-\d]", "", a) != re.sub(r"[^+\-\d]", "", b) or re.sub(r"\w+#\d+", "", a) == re.sub(r"\w+#\d+", "", b):
            ctx.bad("%s:index:%s" % (what, a), s.node.fn.loc(s.node),
                    "%s compares different elements of the two expressions: %s with %s" % (what, s.pa, s.pb))
        else:
            ctx.skip("%s: %s vs %s" % (what, s.pa, s.pb))
    for x in cmpf.sub.values():
        check_pairs(ctx, x, what)


def check_links(ctx, prog, cm, names):
    """two absent links do not make two expressions equal"""
    for s in cm.sites:
        if not (strip(s.a).type or "").rstrip().endswith("*") or s.node.k not in ("bin", "ocall"):
            continue
        labs = kind_of_site(s.node)
        own = set()
        for l in labs:
            nm = names.get(int(l.x[0])) if l.x[0] is not None else None
            if nm:
                own |= {N + nm} | set(prog.bases(N + nm)) | set(prog.derived(N + nm))
        if not own:
            continue
        foreign = [f for f in cm.info[s.node.id][0] if f.rsplit("::", 1)[0] in prog.derived(EX) and f.rsplit("::", 1)[0] not in own]
        if not foreign:
            continue
        ctx.count("links")
        guarded = False
        for cond, kind, lab, term in controlling(s.node):
            if cond is None or kind == "switch" or not isinstance(lab, (bool, int)):
                continue
            t = null_test(cond, bool(lab))
            if t is not None and not t[1] and path(t[0], cm.env) in (s.pa, s.pb):
                guarded = True
        ctx.check(guarded, "equal:link:" + sig(s.pa), s.node.fn.loc(s.node),
                  "two expressions of kind %s are found equal when %s is missing in both" % (names[int(labs[0].x[0])], sig(s.pa)),
                  "equality through %s requires it to be present" % sig(s.pa))
    for x in cm.sub.values():
        check_links(ctx, prog, x, names)


def check(ctx):
    prog = ctx.prog
    consts = kind_constants(prog)
    req = requirements(prog, consts)
    names = {}
    for c, v in consts.items():
        if EX in prog.bases(c):
            names.setdefault(v, c.split("::")[-1])
    never = set(consts[N + k] for k in NEVER)
    eq = prog.fq1(EX + "::equalInternal")
    env = PEnv(eq)
    cm = Cmp(prog, eq, env, ctx, "C03")
    check_pairs(ctx, cm, "equal")
    check_links(ctx, prog, cm, names)
    cases = case_blocks(eq)
    for v, rs in sorted(req.items()):
        nm = names[v]
        if v in never:
            ok = True
            for b in cases.get(v, ()):
                ok = ok and cm.only_false(b) is None
            ctx.check(ok, "equal:never:" + nm, eq.loc(), "two %s nodes may be found equal" % nm)
            continue
        if v not in cases:
            if rs and nm != "VarDeclI":
                ctx.bad("equal:case:" + nm, eq.loc(), "expressions of kind %s are not compared" % nm)
            continue
        for name, tests in rs:
            ctx.count("components")
            ctx.check(cm.must(tests, cases[v]), "equal:" + name, eq.loc(eq.nodes[min(cm.fn.cfg[b].label for b in cases[v])]),
                      "expressions of kind %s can be found equal although %s is not compared on every path" % (nm, name),
                      "equal compares " + name)
    exempt = [lambda i: N + "Id::_decl" in i[0] and "val" not in i[0] and "idn" not in i[0]]
    pol = list(cm.polarity(exempt))
    # --- wrapper
    w = prog.fq1(EX + "::equal")
    wenv = PEnv(w)
    wc = Cmp(prog, w, wenv, ctx, "C03", depth=5)
    check_pairs(ctx, wc, "equal")
    tfields = set(type_fields(prog))
    for name, test in (("node kind", lambda i: N + "ASTNode::_id" in i[0]),
                       ("type", lambda i: N + "Expression::_type" in i[0] and (
                           i[3].replace("const ", "").strip(" &") == N + "Type" or tfields <= set(x.split("::")[-1] for x in i[0]))),
                       ("hash", lambda i: N + "Expression::_hash" in i[0])):
        ctx.check(wc.must([test], [w.entry]), "equal:wrapper:" + name, w.loc(),
                  "expressions can be found equal although their %s is not compared" % name, "equal compares the " + name)
    pol += list(wc.polarity([lambda i: "d" in i[0]]))
    for s, problem in pol:
        if problem is None:
            ctx.skip("outcome of comparison %s at %s" % (s, s.node.fn.loc(s.node)))
            continue
        ctx.count("outcomes")
        ctx.check(problem == "", "equal:outcome:" + sig(s.pa), s.node.fn.loc(s.node),
                  "comparison of %s: %s" % (sig(s.pa), problem), None)
    check_setlit(ctx, prog, eq)
    check_hash(ctx, prog, consts, cm)
    check_compare(ctx, prog, consts, names)
    check_idmaps(ctx, prog)
    check_typebits(ctx, prog)
    check_addresses(ctx, prog)
    ctx.need("components", 25)
    ctx.need("comparison_sites", 60)
    ctx.need("hashed", 25)
    ctx.need("orderings", 30)


def check_setlit(ctx, prog, eq):
    """set literals have three representations: elements are only compared when neither side has a value set"""
    from ..flow import mustfacts
    mf = mustfacts(eq)
    env = PEnv(eq)
    for s in sites_in(eq, env):
        fs = set(simp(x) for x in all_fields(prog, s.a, env))
        if N + "SetLit::_v" in fs and not ({"isv", "fsv"} & fs):
            facts = mf.facts(s.node)
            for k in ("isv", "fsv"):
                nulls = 0
                for f, tv in facts:
                    m = re.match(r"\((.*)\.%s\(\) (==|!=) nullptr\)$" % k, f)
                    if m and (m.group(2) == "==") == tv:
                        nulls += 1
                    m = re.match(r"(.*)\.%s\(\)$" % k, f)
                    if m and not tv:
                        nulls += 1
                ctx.count("representation")
                if s.node.fn.key == eq.key:
                    ctx.check(nulls >= 2, "equal:setlit:%s" % k, eq.loc(s.node),
                              "element lists of set literals are compared although one side may be represented by a value set (%s)" % k)


def check_hash(ctx, prog, consts, cm):
    """hash components are equality components, each kind with components is hashed"""
    compared = {}
    for s in cm.sites:
        for lab in kind_of_site(s.node):
            compared.setdefault(int(lab.x[0]), set()).update(cm.info[s.node.id][0])
    for nid, sub in cm.sub.items():
        for lab in kind_of_site(cm.fn.nodes[nid]):
            for i in sub.info.values():
                compared.setdefault(int(lab.x[0]), set()).update(i[0])
    common = {N + "Expression::_hash", "bits", "p", "d"}
    for c, v in sorted(consts.items()):
        if EX not in prog.bases(c):
            continue
        for f in prog.byq.get(c + "::rehash", []):
            sn = c.split("::")[-1]
            if sn in NEVER:
                continue
            for n, env in [(n, Env(f)) for n in f.nodes]:
                if not (n.is_call() and n.mname == "combineHash"):
                    continue
                fs = set()
                for a in n.args():
                    fs |= set(simp(x) for x in all_fields(prog, a, env, skipfn=lambda g, cq: cq == EX + "::hash"))
                    for m in a.walk():
                        if m.is_call() and m.cq == EX + "::hash":
                            for x in m.args():
                                fs |= set(simp(y) for y in all_fields(prog, x, env))
                ctx.count("hashed")
                own = set(x for x in fs if x.startswith(c + "::") or x in ("isv", "fsv", "id", "decl", "val", "idn", "al"))
                extra = own - compared.get(v, set()) - common
                ctx.check(not extra, "hash:%s" % ",".join(sorted(own)), f.loc(n),
                          "the hash of %s includes %s, which equality does not compare: equal expressions hash differently" %
                          (sn, ", ".join(sorted(extra))), "hash of %s reads only %s" % (sn, ", ".join(sorted(own))))


def check_compare(ctx, prog, consts, names):
    f = prog.fq1(EX + "::compare")
    env = PEnv(f)
    work = [Cmp(prog, f, env, ctx, "C03")]
    while work:
        cm = work.pop()
        check_pairs(ctx, cm, "order")
        work.extend(cm.sub.values())
        for s in cm.sites:
            ctx.count("orderings")
            loc = s.node.fn.loc(s.node)
            t = (strip(s.a).type or "")
            if s.op in ("<", ">", "<=", ">="):
                ctx.check(not t.rstrip().endswith("*"), "order:pointer:" + sig(s.pa), loc,
                          "the structural order compares addresses (%s)" % t)
                p, ch = s.node.p, s.node
                while p is not None and p.k in ("icast", "cast", "darg"):
                    ch, p = p, p.p
                if p is not None and p.k == "?:" and p.c[0] is ch:
                    v = const_int(p.c[1])
                    if v is None:
                        ctx.skip("order: " + loc)
                        continue
                    less = (s.op in ("<", "<=")) != s.swap
                    want = -1 if less else 1
                    w = const_int(p.c[2])
                    ok = (v < 0) == (want < 0) and v != 0
                    if w is not None:
                        ok = ok and w != 0 and (w > 0) == (want < 0) and s.op in ("<", ">")
                    else:
                        q = strip(p.c[2])
                        if q.k == "?:":
                            vals = [const_int(q.c[1]), const_int(q.c[2])]
                            ok = ok and None not in vals and sorted([v] + vals) == [-1, 0, 1]
                            if ok:
                                inner = strip(q.c[0])
                                op = inner.x[0] if inner.k == "bin" else inner.mname[8:] if inner.k == "ocall" else "?"
                                ok = {"==": vals[0] == 0, "!=": vals[1] == 0,
                                      ">": vals[0] == 1 or less is False, "<": vals[0] != 0}.get(op, False)
                    ctx.check(ok, "order:sign:" + sig(s.pa), loc, "the structural order is not antisymmetric for " + sig(s.pa))
                else:
                    ctx.skip("order result: " + loc)
            elif s.op in ("==", "!="):
                p, ch = s.node.p, s.node
                while p is not None and p.k in ("icast", "cast", "darg"):
                    ch, p = p, p.p
                if p is not None and p.k == "?:" and p.c[0] is ch:
                    same = const_int(p.c[1] if s.op == "==" else p.c[2])
                    if same is not None:
                        ctx.check(same == 0, "order:same:" + sig(s.pa), loc, "equal components do not compare as 0")
                else:
                    ctx.ok()
            else:
                ctx.check(not s.swap or negated(s.node), "order:swapped:" + sig(s.pa), loc,
                          "operands of a nested comparison are swapped", None)
                # result is returned or tested
                p = s.node.p
                while p is not None and p.k in ("icast", "cast"):
                    p = p.p
                ctx.check(p is not None and p.k not in ("{",), "order:dropped:" + sig(s.pa), loc,
                          "result of a nested comparison is dropped")


def negated(n):
    p = n.p
    while p is not None and p.k in ("icast", "cast"):
        p = p.p
    return p is not None and p.k == "un" and p.x[0] == "-"


def const_int(n):
    n = strip(n)
    s = 1
    while n.k == "un" and n.x[0] in ("-", "+"):
        if n.x[0] == "-":
            s = -s
        n = strip(n.c[0])
    if n.k == "int":
        return s * int(n.x[0])
    if n.k == "bool":
        return 1 if n.x[0] else 0
    return None


def check_idmaps(ctx, prog):
    """identifier equality used by the maps keyed on identifiers"""
    for f in prog.byq.get(N + "IdEq::operator()", []):
        e = PEnv2(f)
        cm = Cmp(prog, f, e, ctx, "C03")
        check_pairs(ctx, cm, "IdEq")
        ctx.check(cm.must([lambda i: "idn" in i[0]], [f.entry]), "ideq:idn", f.loc(), "identifiers are found equal without comparing their numbers")
        for s, problem in cm.polarity():
            pass
        names = [s for s in cm.sites if "val" in cm.info[s.node.id][0]]
        ctx.check(bool(names), "ideq:name", f.loc(), "identifiers without number are found equal without comparing their names")
    for nm, callee in (("ExpressionEq", "equal"), ("ExpressionHash", "hash")):
        for f in prog.byq.get(N + nm + "::operator()", []):
            ok = any(n.is_call() and n.cq == EX + "::" + callee for n in f.nodes)
            if not ok:
                ok = any(n.is_call() and n.callee in prog.F and prog.F[n.callee].q.startswith(N) for n in f.nodes)
            ctx.check(ok, "maps:" + nm, f.loc(), "%s does not use Expression::%s" % (nm, callee))


def PEnv2(f):
    e = PEnv(f) if not f.cls else Env2(f)
    return e


class Env2(PEnv):
    def __init__(self, fn):
        Env.__init__(self, fn)
        ps = [p[2] for p in fn.params]
        self.roots = {ps[0]: "@0", ps[1]: "@1"}


def type_fields(prog):
    c = prog.C.get(N + "Type")
    if c is None:
        raise AnalysisError("class Type not found")
    # annotations of how a type was written or what it contains do not distinguish values
    fields = [f[0] for f in c["fields"] if f[0] not in ("_tiExplicit", "_otExplicit", "_cv", "_at")]
    if len(fields) < 6:
        raise AnalysisError("fields of class Type not found")
    return fields


def check_typebits(ctx, prog):
    """type comparison by toInt covers every bit-field of Type"""
    fields = type_fields(prog)
    for f in prog.byq.get(N + "Type::toInt", []):
        fs = set()
        for r in f.nodes:
            if r.k == "return" and r.c:
                fs |= all_fields(prog, r.c[0], Env(f))
        got = set(x.split("::")[-1] for x in fs)
        for x in fields:
            ctx.count("typebits")
            ctx.check(x in got, "type:toInt:" + x, f.loc(), "the integer form of a type, which decides type equality, omits " + x,
                      "type code includes " + x)
        # disjoint shifts
        shifts = {}
        for n in f.nodes:
            if n.k == "bin" and n.x[0] == "<<":
                v = const_int(n.c[1])
                ff = set(x.split("::")[-1] for x in all_fields(prog, n.c[0], Env(f))) & set(fields)
                if v is not None and len(ff) == 1:
                    shifts.setdefault(v, set()).update(ff)
        for v, ff in shifts.items():
            ctx.check(len(ff) == 1, "type:shift:%d" % v, f.loc(), "fields %s share bit %d of the type code" % (sorted(ff), v))
        # operator== and != of Type look at every field
    for opn in ("operator==", "operator!="):
        for f in prog.byq.get(N + "Type::" + opn, []):
            e = PEnv(f)
            fs = set()
            for s in sites_in(f, e):
                if sig(s.pa) != sig(s.pb):
                    fa = set(all_fields(prog, s.a, e))
                    fb = set(all_fields(prog, s.b, e))
                    ctx.check(fa == fb, "type:%s:pair" % opn, f.loc(s.node), "type comparison pairs different fields")
                fs |= set(x.split("::")[-1] for x in all_fields(prog, s.a, e))
            if fs:
                for x in fields:
                    ctx.check(x in fs, "type:%s:%s" % (opn, x), f.loc(), "type comparison %s ignores %s" % (opn, x))


def check_addresses(ctx, prog):
    """no hash or order in the closure of expression hashing/ordering reads an address"""
    rootq = []
    for f in prog.F.values():
        if f.name in ("rehash", "hash", "compare") and f.q.startswith(N) and f.cls and f.file.startswith(("lib/ast", "include/minizinc/ast", "lib/aststring", "include/minizinc/values", "include/minizinc/type", "include/minizinc/gc")):
            rootq.append(f)
    rootq += prog.byq.get("std::hash<MiniZinc::IntVal>::operator()", []) + prog.byq.get("std::hash<MiniZinc::FloatVal>::operator()", [])
    rootq += [f for f in prog.F.values() if f.name == "operator()" and f.cls and f.cls.startswith("std::hash<")]
    seen = prog.reach(rootq)
    for k in sorted(seen):
        f = prog.F[k]
        if f.file.startswith(("/", "_")):
            continue
        for n in f.nodes:
            if n.is_call() and n.cq and re.match(r"std::hash<.*\*>::operator\(\)", n.cq):
                ctx.bad("address:hash:" + f.q, f.loc(n), "%s hashes a pointer value" % f.q)
            if n.k == "cast" and n.c and f in rootq:
                src = (strip(n.c[0]).type or "")
                dst = n.type or ""
                if src.endswith("*") and re.search(r"\b(int|long|size_t|uintptr_t|intptr_t)\b", dst) and not dst.endswith("*"):
                    ctx.bad("address:cast:" + f.q, f.loc(n), "%s converts an address to a number" % f.q)
        ctx.count("address_functions")
    ctx.ok("no pointer hashing in %d functions" % len(seen))
