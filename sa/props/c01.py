"""C01: every managed component of every node kind and root object is marked."""
import re
from ..facts import AnalysisError
from ..flow import Env, bind, strip, local_defs, controlling, canon, TRANSPARENT
from ..prov import outer_fields, all_fields

EXPLANATION = (
    "Field-coverage analysis of the garbage collector's mark phase. The set of obligations is derived from the class "
    "definitions: every field of every class derived from ASTNode (syntax nodes, items) or GCMarker (roots) whose type "
    "holds a collectable object (node pointer, string, array block, set block, annotation, location, container of "
    "those). For each, the interprocedural closure of the mark entry (Expression::mark, Item::mark, X::mark) must "
    "contain a marking effect (store to the _gcMark bit, work-list push, recursive mark call) on a value that comes "
    "from that field, under conditions that only test the field's own presence, the mark bit, boxing, the node kind "
    "(and then the right kind) or the field's union discriminator, inside loops that visit every element. Also decided: "
    "the collector's root lists are all walked, weak tables are purged, the node size table matches the class sizes, "
    "and root objects register and deregister themselves.")

EXPR = "MiniZinc::Expression"
ITEM = "MiniZinc::Item"

# fields that deliberately do not keep their target alive (class, field): reason
WEAK = {
    ("MiniZinc::BinOp", "_decl"): "cache of an operator's function, which the owning model's item list keeps alive",
    ("MiniZinc::UnOp", "_decl"): "cache of an operator's function, which the owning model's item list keeps alive",
    ("MiniZinc::VarDecl", "_flat"): "weak link, reset by the sweep when its target dies",
    ("MiniZinc::IncludeI", "_m"): "included models are roots themselves",
    ("MiniZinc::BinOp", "_placeholder"): "unused padding",
}
# discriminators: fields a condition on the marking of (class, field) may read
DISCR = {
    "MiniZinc::SetLit": {"MiniZinc::Expression::_type", "MiniZinc::Type::_bt", "MiniZinc::SetLit::_u", "isv", "fsv", "MiniZinc::SetLit::_v"},
    "MiniZinc::Id": {"MiniZinc::Id::_vOrIdn", "idn", "val"},
    "MiniZinc::ArrayLit": {"MiniZinc::ArrayLit::_u", "MiniZinc::ASTNode::_flag2"},
    "MiniZinc::Call": {"MiniZinc::ASTNode::_secondaryId", "MiniZinc::Call::_uId", "id", "decl",
                       "MiniZinc::CallNary::_args", "MiniZinc::ASTNode::_flag1", "MiniZinc::ASTNode::_flag2"},
    "MiniZinc::Location": {"MiniZinc::Location::_locInfo"},
    "MiniZinc::GC::Heap": {"MiniZinc::GC::Heap::_rootset"},
}
for _c in ("Call1", "Call2", "Call3", "Call4", "CallNary"):
    DISCR["MiniZinc::" + _c] = DISCR["MiniZinc::Call"]
NEUTRAL = {
    "MiniZinc::ASTNode::_gcMark", "MiniZinc::ASTNode::_vdGcMark", "MiniZinc::ASTNode::_id",
    "MiniZinc::ASTExprVec::_v", "MiniZinc::ASTVec::_size", "MiniZinc::ASTChunk::_size", "MiniZinc::ASTString::_s",
    "MiniZinc::ASTIntVec::_v", "MiniZinc::Annotation::_s", "MiniZinc::ExpressionSetIter::_empty",
    "MiniZinc::ASTChunk::_data", "MiniZinc::ASTVec::_data", "MiniZinc::Location::_locInfo", "MiniZinc::Location::LI::lv", "MiniZinc::Location::LI::t",
    "MiniZinc::GCMarker::_rootsNext", "MiniZinc::GCMarker::_rootsPrev",
    "MiniZinc::WeakRef::_n", "MiniZinc::WeakRef::_p", "MiniZinc::KeepAlive::_n", "MiniZinc::KeepAlive::_p", "MiniZinc::KeepAlive::_e",
}


def simp(f):
    """ignore template arguments; anonymous aggregates are known by member name"""
    f = re.sub(r"<[^<>]*>", "", f)
    f = re.sub(r"<[^<>]*>", "", f)
    f = re.sub(r"<[^<>]*>", "", f)
    if "(anonymous" in f or "(unnamed" in f:
        return f.split("::")[-1]
    # Call1..Call4 share one argument layout; the accessor reads them through the widest
    return re.sub(r"MiniZinc::Call[123]::_data$", "MiniZinc::Call4::_data", f)


def classify(prog, t):
    """kinds of marking a field of type t needs: subset of {'node','block','elems'}; None if unmanaged"""
    s = t.replace("const ", "").strip()
    base = s.rstrip("*& ").strip()
    ptr = s.endswith("*")
    node = prog.derived(EXPR)
    item = prog.derived(ITEM)
    if "KeepAlive" in s or "WeakRef" in s:
        return None
    if "(*)" in s:
        return None
    if ptr and s.count("*") == 1:
        if base in node or base in item:
            return {"node"}
        if base.startswith("MiniZinc::ASTExprVecO"):
            return {"block", "elems"}
        if base in ("MiniZinc::IntSetVal", "MiniZinc::FloatSetVal", "MiniZinc::ASTStringData",
                    "MiniZinc::ASTIntVecO", "MiniZinc::Location::LocVec"):
            return {"block"}
        return None
    if base == "MiniZinc::ASTString":
        return {"block"}
    if base == "MiniZinc::ASTIntVec":
        return {"block"}
    if base.startswith("MiniZinc::ASTExprVec<"):
        return {"block", "elems"}
    if base == "MiniZinc::Annotation":
        return {"elems"}
    if base == "MiniZinc::Location":
        return {"block"}
    m = re.match(r"(.*) \*?\[\d+\]$", s)
    if m and (m.group(1).rstrip("* ") in node):
        return {"elems"}
    if s.startswith("std::"):
        if re.search(r"MiniZinc::(%s) \*" % "|".join(sorted((x.split("::")[-1] for x in node | item), key=len, reverse=True)), s) \
                or "MiniZinc::ASTString" in s or "StackDump" in s:
            return {"elems"}
        # container of a project struct that holds managed values
        for mm in re.finditer(r"MiniZinc::[\w:]+", s):
            c = prog.C.get(mm.group(0))
            if c and mm.group(0) not in prog.derived("MiniZinc::GCMarker"):
                for f in c["fields"]:
                    if classify_flat(prog, f[1]):
                        return {"elems"}
    return None


def classify_flat(prog, t):
    if t.startswith("std::"):
        return None
    return classify(prog, t)


def is_node_type(prog, t):
    s = t.replace("const ", "").replace("*", "").replace("&", "").strip()
    return s in prog.derived(EXPR) or s in prog.derived(ITEM)


class Effects(object):
    """marking effects found in the closure of one entry"""

    def __init__(self, prog, entry):
        self.prog = prog
        self.effects = []  # (kind, fields(frozenset of simp names), node, env)
        self.funcs = set()
        self.run(entry)

    def run(self, entry):
        prog = self.prog
        marks = {"MiniZinc::Expression::mark", "MiniZinc::Item::mark"}
        work = [Env(entry)]
        seen = set()
        while work:
            env = work.pop()
            self.funcs.add(env.fn.key)
            for n in env.fn.nodes:
                if n.k == "bin" and n.x[0] in ("=", "|="):
                    l = strip(n.c[0])
                    r = strip(n.c[1])
                    if l.k == "mem" and l.x[1] == "MiniZinc::ASTNode::_gcMark":
                        if r.k == "int" and r.x[0] == 0:
                            continue
                        self.add("block", l.c[0], n, env)
                if n.k in ("call", "mcall", "ocall"):
                    q = n.cq
                    if q in marks:
                        self.add("node", n.args()[0], n, env)
                        continue
                    last = n.mname
                    if n.k == "mcall" and last in ("push_back", "emplace_back", "push", "emplace", "insert", "push_front"):
                        r = strip(n.c[0])
                        if r.k == "ref" and r.x[0] in ("v", "p", "s") and re.search(r"Expression \*|Item \*", n.c[0].type or ""):
                            self.add("node", n.c[1], n, env)
                            continue
                    for t in prog.targets(n):
                        if t.defaulted or t.key in env.chain() or env.depth >= 9:
                            continue
                        if t.q.startswith("std::"):
                            continue
                        key = (t.key, n.id, env.uid)
                        if key in seen:
                            continue
                        seen.add(key)
                        if t.ret == "void" or last in ("mark",) or True:
                            # only descend where an effect can happen
                            if self.may_mark(t):
                                work.append(bind(prog, env, n, t))
                elif n.k == "lambda":
                    t = prog.F.get(n.x[0])
                    if t is not None and t.key not in env.chain():
                        e2 = Env(t, {}, env.this, env, n)
                        work.append(e2)

    _may = None

    def may_mark(self, f):
        if Effects._may is None:
            tg = set()
            for g in self.prog.F.values():
                if g.q in ("MiniZinc::Expression::mark", "MiniZinc::Item::mark"):
                    tg.add(g.key)
                    continue
                if "_gcMark" in (g._raw or "") or (g._raw is None and any(
                        x.k == "mem" and x.x[0] == "_gcMark" for x in g.nodes)):
                    tg.add(g.key)
            Effects._may = self.prog.can_reach(tg)
        if f.key in Effects._may:
            return True
        # helpers that only push on a work list
        return any(re.search(r"(vector|stack|deque|list)<.*(Expression|Item) \*", p[1]) for p in f.params)

    def add(self, kind, valnode, node, env):
        prog = self.prog
        of = set(simp(x) for x in outer_fields(prog, valnode, env))
        af = set(simp(x) for x in all_fields(prog, valnode, env))
        self.effects.append((kind, of, node, env, af | of))

    def conds(self, eff):
        """all deciding conditions of the effect, through the call chain"""
        node, env = eff[2], eff[3]
        out = []
        n, e = node, env
        while e is not None:
            for c in controlling(n):
                out.append((c, e))
            # parameter-less null checks are in the function itself
            n, e = e.site, e.parent
        return out


def eid_values(prog):
    """class -> value of its static node-kind constant, from the enum constants named in case labels"""
    return None


# fields outside the union: their marking may not depend on the union's discriminator
PLAIN = {("MiniZinc::ArrayLit", "MiniZinc::ArrayLit::_dims"), ("MiniZinc::Id", "MiniZinc::Id::_decl"),
         ("MiniZinc::Call", "MiniZinc::Call::_uId")}


def cond_ok(prog, c, env, field, cls, path=()):
    """is this condition benign for marking `field` of `cls`? returns (ok, why)"""
    cond, kind, lab, term = c
    if cond is None:
        return True, ""
    if kind == "CXXForRangeStmt":
        return True, ""
    fs = set(simp(x) for x in all_fields(prog, cond, env))
    allowed = set(NEUTRAL) | {field} | set(path)
    d = DISCR.get(cls)
    if d and (cls, field) not in PLAIN:
        allowed |= d
    bad = fs - allowed
    if bad:
        return False, "condition reads %s" % ", ".join(sorted(bad))
    return True, ""


def full_loop(loop):
    """does this for/while loop visit every index/element? returns None if not recognised"""
    if loop.k == "rfor":
        return True
    if loop.k == "for":
        init, cond, inc = loop.c[0], strip(loop.c[2]), strip(loop.c[3])
        ct = canon(cond)
        it = None
        for x in init.walk():
            if x.k == "var" and x.c:
                it = (x.x[0] + "#" + str(x.x[1]), canon(x.c[0]))
                break
        if it is None:
            return None
        v, start = it
        if start == "0" or start.endswith("begin()") or "begin(" in start or "cbegin" in start:
            m = cond.k in ("bin", "ocall") and ("size(" in ct or "end(" in ct or "argCount(" in ct or "#" in ct.replace(v, ""))
            op = cond.x[0] if cond.k == "bin" else (cond.cq.split("operator")[-1] if cond.k == "ocall" else "")
            inc_ok = inc.k in ("un", "ocall") and "++" in (inc.x[0] if inc.k == "un" else inc.cq)
            if m and op in ("<", "!=", ">") and inc_ok:
                b = canon(cond.c[1]) if canon(cond.c[0]) == v else canon(cond.c[0])
                if re.search(r"[-+] \d+\)$", b):
                    return False
                return True
            if m and op in ("<=", ">="):
                b = canon(cond.c[1])
                return True if re.search(r"size\(\) - 1\)$", b) else False
            return False
        if re.match(r"^\d+$", start):
            return False
        # reverse: starts at the size
        if "size(" in start or "argCount(" in start:
            if "p--" in ct or "--" in ct:
                if re.search(r"[-+] \d+\)$", start):
                    return False
                # (i--) != 0, i-- > 0
                mm = re.search(r"(!=|>) (\d+)\)$", ct)
                if mm:
                    return mm.group(2) == "0"
                return True
            mm = re.search(r"(!=|>|>=) (\d+)\)$", ct)
            if mm:
                if start.endswith("- 1)"):
                    return mm.group(1) == ">=" and mm.group(2) == "0"
                return mm.group(1) in ("!=", ">") and mm.group(2) == "0"
        return None
    return None


def elem_loops(eff):
    """loops enclosing the effect in its function (innermost first)"""
    n, e = eff[2], eff[3]
    out = []
    while e is not None:
        p = n.p if n is not None else None
        while p is not None:
            if p.k in ("for", "while", "do", "rfor"):
                out.append(p)
            p = p.p
        n, e = e.site, e.parent
    return out


def kind_labels(prog, eff):
    """for effects below a switch over the node kind: the set of kind constants it runs under (None: no switch)"""
    labs = None
    n, e = eff[2], eff[3]
    while e is not None:
        cur = set()
        found = False
        for cond, kind, lab, term in controlling(n):
            if kind == "switch" and cond is not None:
                t = cond.type or ""
                if "ExpressionId" in t or "ItemId" in t:
                    found = True
                    if lab is not None and lab.k == "case":
                        cur.add(lab.x[0])
                        # fallthrough labels stacked on the same statement
                        x = lab
                        while x.p is not None and x.p.k == "case":
                            x = x.p
                            cur.add(x.x[0])
                        x = lab
                        while x.c and x.c[-1].k == "case":
                            x = x.c[-1]
                            cur.add(x.x[0])
        if found:
            labs = cur if labs is None else labs & cur
        n, e = e.site, e.parent
    return labs


def check(ctx):
    prog = ctx.prog
    emark = prog.fq1("MiniZinc::Expression::mark")
    imark = prog.fq1("MiniZinc::Item::mark")
    eff_e = Effects(prog, emark)
    eff_i = Effects(prog, imark)
    ctx.count("mark_effects_expression", len(eff_e.effects))
    ctx.count("mark_effects_item", len(eff_i.effects))

    kinds = kind_constants(prog)

    def obligations(cls):
        c = prog.C.get(cls)
        if c is None:
            return
        for f in c["fields"]:
            name, t = f[0], f[1]
            if (cls, name) in WEAK:
                continue
            if "(unnamed)" in t and not t.startswith("std"):
                u = prog.C.get(t)
                if cls == "MiniZinc::Constants" or u is None:
                    continue
                for g in u["fields"]:
                    need = classify(prog, g[1])
                    if need:
                        yield g[0], cls + "::" + name + "." + g[0], need, g
                continue
            need = classify(prog, t)
            if need:
                yield simp(cls + "::" + name), cls + "::" + name, need, f

    def judge(cls, field, label, need, fdecl, effs, where):
        nonlocal_viol = False
        loc = "%s:%d" % (prog.C[cls]["f"], fdecl[2])
        if need == {"block", "elems"} and (label.endswith("_u.v")):
            pass
        for kind in sorted(need):
            want = {"node": ("node",), "elems": ("node", "block"), "block": ("block",)}[kind]
            cands = [e for e in effs.effects if e[0] in want and field in e[1] and owner_ok(prog, e, field, cls)]
            if kind == "elems" and "ASTExprVec" in fdecl[1]:
                cands = [e for e in cands if e[0] == "node"]
            if not cands:
                ctx.bad("unmarked:%s:%s" % (label, kind), loc,
                        "%s of field %s is never marked by %s" % (
                            {"node": "target", "elems": "contents", "block": "storage"}[kind], label, where))
                continue
            why = []
            good = None
            for e in cands:
                reason = None
                for c, env in effs.conds(e):
                    ok, w = cond_ok(prog, c, env, field, cls, e[4])
                    if not ok:
                        reason = "%s at %s" % (w, env.fn.loc(c[0]))
                        break
                if reason is None and kind == "elems":
                    for lp in elem_loops(e):
                        r = full_loop(lp)
                        if r is False:
                            reason = "loop at %s does not visit every element" % lp.fn.loc(lp)
                            break
                if reason is None:
                    labs = kind_labels(prog, e)
                    if labs is not None and cls in kinds and kinds[cls] not in labs:
                        reason = "runs under node kind(s) %s, not %s" % (sorted(labs), kinds[cls])
                if reason is None:
                    good = e
                    break
                why.append(reason)
            if good is not None:
                ctx.ok("%s (%s) marked at %s" % (label, kind, good[3].fn.loc(good[2])))
            else:
                ctx.bad("conditional:%s:%s" % (label, kind), loc,
                        "marking of %s is conditional: %s" % (label, "; ".join(sorted(set(why)))[:300]))

    n = 0
    for cls in sorted(prog.derived(EXPR)):
        for field, label, need, fd in obligations(cls):
            n += 1
            judge(cls, field, label, need, fd, eff_e, "Expression::mark")
    ctx.count("expression_fields", n)
    ni = 0
    for cls in sorted(prog.derived(ITEM)):
        for field, label, need, fd in obligations(cls):
            ni += 1
            judge(cls, field, label, need, fd, eff_i, "Item::mark")
    ctx.count("item_fields", ni)
    ctx.need("expression_fields", 20)
    ctx.need("item_fields", 8)

    check_roots(ctx, prog, obligations, judge)
    check_locvec(ctx, prog)
    check_constants(ctx, prog)
    check_heap(ctx, prog)
    check_sizes(ctx, prog, kinds)
    check_registration(ctx, prog)
    check_sweep(ctx, prog)
    check_tables(ctx, prog)


# long-lived tables outside the managed heap that own nodes nothing else is guaranteed to hold
PROTECTED_TABLES = [
    ("MiniZinc::EE", "r"), ("MiniZinc::EE", "b"), ("MiniZinc::EnvI", "reverseMappers"), ("MiniZinc::EnvI", "checkVars"),
    ("MiniZinc::EnvI", "outputVars"), ("MiniZinc::EnvI", "outputSections"), ("MiniZinc::EnvI", "assumptionExprs"),
    ("MiniZinc::EnvI", "_cseMap"), ("MiniZinc::EvalCallCleanup<MiniZinc::Call>", "_previousCapture"),
    ("MiniZinc::EvalCallCleanup<MiniZinc::BinOp>", "_previousCapture"),
    ("MiniZinc::EvalCallCleanup<MiniZinc::UnOp>", "_previousCapture"),
    ("MiniZinc::Solns2Out", "_declmap"), ("MiniZinc::TopoSorter", "decls"), ("MiniZinc::VarPathStore", "reversePathMap"),
    ("MiniZinc::VarPathStore::PathVar", "decl"), ("MiniZinc::Constants", "integerMap"), ("MiniZinc::Constants", "floatMap"),
    ("MiniZinc::CopyMap", "_nodeMap"), ("MiniZinc::CopyMap", "_revNodeMap"),
]
_PROT = re.compile(r"KeepAlive|WeakRef|ManagedASTStringMap|ASTNodeWeakMap|CSEMap|OutputSectionStore")


def check_tables(ctx, prog):
    for cls, name in PROTECTED_TABLES:
        c = prog.C.get(cls)
        f = [x for x in (c or {}).get("fields", []) if x[0] == name]
        if not f:
            ctx.skip("table %s::%s not found" % (cls, name))
            continue
        ctx.count("protected_tables")
        ctx.check(bool(_PROT.search(f[0][1])), "table:%s::%s" % (cls, name), "%s:%d" % (c["f"], f[0][2]),
                  "%s::%s holds nodes that nothing else keeps alive but is no longer a collector root (%s)" % (cls, name, f[0][1][:80]),
                  "%s::%s is a root" % (cls, name))


def owner_ok(prog, e, field, cls):
    return True


def kind_constants(prog):
    """class -> value of the kind constant its constructor passes to / that static member eid/iid names"""
    out = {}
    enumvals = {}
    for q in ("MiniZinc::Expression::ExpressionId", "MiniZinc::Item::ItemId"):
        e = prog.E.get(q)
        if e is None:
            raise AnalysisError("enum %s not found" % q)
    for root in (EXPR, ITEM):
        for c in prog.derived(root):
            k = prog.C.get(c)
            for s in (k or {}).get("statics", []):
                if s[0] in ("eid", "iid") and s[2] is not None:
                    out[c] = int(s[2])
    for c in list(prog.derived(EXPR)):
        if c not in out:
            for b in prog.bases(c):
                if b in out and b != c:
                    out[c] = out[b]
    return out


# ---------------------------------------------------------------------------------- roots
ROOT_EXEMPT = {
    ("MiniZinc::Model", "_fnmap"): "registered functions are items of a model",
    ("MiniZinc::Model", "_fnAnchors"): "registered functions are items of a model",
    ("MiniZinc::Model", "_revmapmap"): "registered functions are items of a model",
    ("MiniZinc::Model", "_solveItem"): "is an item of the model",
    ("MiniZinc::Model", "_outputItem"): "is an item of the model",
    ("MiniZinc::Model", "_fnDecls"): "registered functions are items of a model",
    ("MiniZinc::OutputSectionStore", "_idx"): "keys are the section names held by _sections",
}


def check_roots(ctx, prog, obligations, judge):
    n = 0
    for cls in sorted(prog.derived("MiniZinc::GCMarker")):
        c = prog.C.get(cls)
        if c is None or c.get("dep"):
            continue
        f = mark_of(prog, cls)
        obs = []
        for b in sorted(prog.bases(cls)):
            bc = prog.C.get(b)
            if bc is None or (bc.get("dep") and b != cls) or b == "MiniZinc::GCMarker":
                continue
            for field, label, need, fd in obligations(b):
                if (b, fd[0]) in ROOT_EXEMPT:
                    continue
                obs.append((b, field, label, need, fd))
        mapbase = [b for b in c["bases"] if b.startswith("std::")]
        if not obs and not mapbase:
            continue
        if f is None:
            ctx.bad("no-mark:" + cls, "%s:%d" % (c["f"], c["l"]), "root class %s has no mark()" % cls)
            continue
        eff = Effects(prog, f)
        ctx.count("root_classes")
        for b, field, label, need, fd in obs:
            n += 1
            judge(b, field, label, {"elems"} if need == {"elems"} else need, fd, eff, f.q)
        for mb in mapbase:
            # the map keys (strings) and node values are elements of *this
            vals = []
            if "MiniZinc::ASTString" in mb:
                vals.append("first")
            m = re.search(r"std::pair<const MiniZinc::ASTString, (.*)>>>$", mb)
            vt = m.group(1) if m else ""
            if "KeepAlive" not in vt and classify(prog, vt):
                vals.append("second")
            for v in vals:
                n += 1
                got = [e for e in eff.effects if any(x.split("::")[-1] == v for x in e[1])]
                ok = False
                for e in got:
                    conds = [c for c, env in eff.conds(e) if c[1] != "CXXForRangeStmt" and
                             set(simp(x) for x in all_fields(prog, c[0], env)) - NEUTRAL - {e2 for e2 in e[1]}]
                    if not conds and all(full_loop(l) is not False for l in elem_loops(e)):
                        ok = True
                ctx.check(ok, "unmarked:%s:%s" % (cls, v), f.loc(), "%s of the entries of %s are not marked by %s" % (
                    "keys" if v == "first" else "values", cls, f.q), "%s.%s marked" % (cls, v))
    ctx.count("root_fields", n)
    ctx.need("root_fields", 25)


def mark_of(prog, cls):
    for name in [cls]:
        st, seen = [cls], set()
        while st:
            c = st.pop(0)
            if c in seen:
                continue
            seen.add(c)
            fs = [f for f in prog.byq.get(c + "::mark", [])]
            if fs:
                return fs[0]
            if c in prog.C:
                st.extend(prog.C[c]["bases"])
    return None


def check_locvec(ctx, prog):
    fs = prog.byq.get("MiniZinc::Location::LocVec::mark", [])
    if not fs:
        ctx.skip("LocVec::mark not found")
        return
    eff = Effects(prog, fs[0])
    ok = False
    for e in eff.effects:
        if "MiniZinc::ASTVec::_data" in e[1]:
            ok = True
    ctx.check(ok, "unmarked:LocVec:filename", fs[0].loc(), "a location's file name string is not marked with it",
              "LocVec filename")


def check_constants(ctx, prog):
    """strings and identifiers held by the constant tables come from the registering allocators"""
    cls = prog.C.get("MiniZinc::Constants")
    ctors = [f for f in prog.byq.get("MiniZinc::Constants::Constants", []) if f.kind == "ctor"]
    if not ctors:
        raise AnalysisError("Constants constructor not found")
    reg = {}
    for f in prog.F.values():
        if f.cls == "MiniZinc::Constants" and f.kind != "ctor":
            for n in f.nodes:
                if n.k == "mcall" and n.mname in ("push_back", "emplace_back"):
                    o = strip(n.c[0])
                    if o.k == "mem" and o.x[1] in ("MiniZinc::Constants::_ids", "MiniZinc::Constants::_strings"):
                        if not controlling(n):
                            reg[f.key] = o.x[0]
    n = 0
    managed = re.compile(r"^(const )?MiniZinc::(ASTString|Id \*)")
    for f in ctors:
        for node in f.nodes:
            lhs = rhs = None
            if node.k == "bin" and node.x[0] == "=":
                lhs, rhs = node.c
            elif node.k == "ocall" and (node.mname == "operator=") and len(node.c) == 2:
                lhs, rhs = node.c
            if lhs is None:
                continue
            l = strip(lhs)
            if l.k != "mem" or not ("(anonymous" in l.x[1] or "(unnamed" in l.x[1]):
                continue
            if not managed.match(l.type or ""):
                continue
            n += 1
            ok = False
            for x in rhs.walk():
                if x.is_call() and x.callee in reg:
                    ok = True
                elif x.k == "mem" and x is not l and ("(anonymous" in x.x[1] or "(unnamed" in x.x[1] or
                                                     x.x[1].startswith("MiniZinc::Constants::")):
                    ok = True
                elif x.is_call() and x.callee in prog.F:
                    g = prog.F[x.callee]
                    if any(y.is_call() and y.callee in reg for y in g.nodes):
                        ok = True
            ctx.check(ok, "constant-unregistered:%s" % l.x[0], f.loc(node),
                      "constant %s is not kept in a marked table" % l.x[0], None)
    ctx.count("constant_table_entries", n)
    if n < 50:
        ctx.skip("only %d assignments of constant strings recognised" % n)


def check_heap(ctx, prog):
    f = prog.fq1("MiniZinc::GC::Heap::mark")
    eff = Effects(prog, f)
    heap = prog.C.get("MiniZinc::GC::Heap")
    fields = {x[0]: x for x in heap["fields"]}
    n = 0
    for name, fd in sorted(fields.items()):
        t = fd[1]
        want = None
        if t == "MiniZinc::KeepAlive *":
            want = "MiniZinc::KeepAlive::_e"
        elif t == "MiniZinc::GCMarker *":
            want = "virtual mark()"
        elif t.startswith("std::vector") and "Heap" in t:
            want = "trail"
        elif t in ("MiniZinc::WeakRef *", "MiniZinc::ASTNodeWeakMap *"):
            want = "weak"
        if want is None:
            continue
        n += 1
        q = "MiniZinc::GC::Heap::" + name
        got = False
        why = ""
        funcs = [(f, Env(f))]
        # include direct helpers
        for node in f.nodes:
            if node.is_call():
                for t2 in prog.targets(node):
                    if t2.cls in ("MiniZinc::GC::Heap", "MiniZinc::GC") and t2.key != f.key:
                        funcs.append((t2, bind(prog, funcs[0][1], node, t2)))
        for g, env in funcs:
            for node in g.nodes:
                src = None
                if want == "virtual mark()":
                    if node.k == "mcall" and node.cq == "MiniZinc::GCMarker::mark":
                        src = node.c[0]
                elif want in ("trail", "MiniZinc::KeepAlive::_e"):
                    if node.k == "call" and node.cq == "MiniZinc::Expression::mark":
                        src = node.c[0]
                else:
                    if t == "MiniZinc::WeakRef *" and node.k == "bin" and node.x[0] == "=":
                        l = strip(node.c[0])
                        if l.k == "mem" and l.x[1] == "MiniZinc::WeakRef::_e" and strip(node.c[1]).k in ("nullptr",):
                            src = l.c[0]
                    if t == "MiniZinc::ASTNodeWeakMap *" and node.k == "mcall" and node.cq.endswith("::erase"):
                        src = node.c[0]
                if src is None:
                    continue
                fs = set(simp(x) for x in all_fields(prog, src, env))
                if q not in fs and fs:
                    continue
                if q not in fs:
                    continue
                bad = None
                e = (None, None, node, env)
                for c, en in eff.conds((None, set(), node, env)):
                    if c[0] is None or c[1] == "CXXForRangeStmt":
                        continue
                    cf = set(simp(x) for x in all_fields(prog, c[0], en))
                    rest = cf - NEUTRAL - {q, "MiniZinc::GC::Heap::_rootset", "MiniZinc::WeakRef::_e", "MiniZinc::WeakRef::_n",
                                           "MiniZinc::ASTNodeWeakMap::_n", "MiniZinc::ASTNodeWeakMap::_m", "first", "second",
                                           "std::pair::first", "std::pair::second", "MiniZinc::GC::Heap::TItem::mark",
                                           "MiniZinc::GC::Heap::TItem::v"}
                    rest = set(r for r in rest if not r.startswith("MiniZinc::GC::Heap::_"))
                    if rest:
                        bad = rest
                if bad:
                    why = "under a condition on %s" % ", ".join(sorted(bad))
                    continue
                if want == "trail":
                    if any(full_loop(l) is False for l in elem_loops((None, set(), node, env))):
                        why = "loop does not cover the whole trail"
                        continue
                got = True
        ctx.check(got, "heap-root:" + name, f.loc(), "the collector does not process root list %s %s" % (q, why),
                  "root list %s" % name)
    ctx.count("heap_root_lists", n)
    ctx.need("heap_root_lists", 4)


def check_sizes(ctx, prog, kinds):
    """the heap walk uses per-kind sizes: each must be the size of the class with that kind"""
    fs = prog.byq.get("MiniZinc::GC::Heap::nodesize", [])
    if not fs:
        ctx.skip("node size function not found")
        return
    f = fs[0]
    byval = {}
    for c, v in kinds.items():
        s = [x for x in prog.C[c]["statics"] if x[0] in ("eid", "iid")]
        if s:
            byval[v] = c
    n = 0
    for node in f.nodes:
        if node.k == "var" and node.c and node.c[0].k == "ilist":
            il = node.c[0]
            for i, e in enumerate(il.c):
                e = strip(e)
                if i in byval and byval[i] != "MiniZinc::VarDeclI":
                    c = byval[i]
                    want = prog.C[c].get("size")
                    got = None
                    if e.k == "sizeof":
                        got = e.x[1]
                    elif e.k == "int":
                        got = e.x[0]
                    n += 1
                    # call nodes are sized by arity below
                    if c == "MiniZinc::Call":
                        continue
                    ctx.check(got == want, "nodesize:%s" % c, f.loc(e),
                              "heap walk uses %s bytes for %s, whose size is %s" % (got, c, want), "size of " + c)
    ctx.count("node_sizes", n)
    # call kinds
    want = {"CK_NULLARY": ("Call1", "CallNary"), "CK_BINARY": ("Call2",), "CK_NARY_2": ("Call2",), "CK_TERNARY": ("Call3",),
            "CK_NARY_3": ("Call3",), "CK_QUATERNARY": ("Call4",), "CK_NARY_4": ("Call4",)}
    for node in f.nodes:
        if node.k == "sizeof" and node.x[0].startswith("MiniZinc::Call"):
            labs = [lab for cond, kind, lab, term in controlling(node) if kind == "switch" and cond is not None and
                    "CallKind" in (cond.type or "")]
            for lab in labs:
                if lab is None or lab.k != "case":
                    continue
                nm = lab.x[1].split("::")[-1]
                if nm in want:
                    sizes = [prog.C["MiniZinc::" + c]["size"] for c in want[nm]]
                    ctx.check(node.x[1] in sizes, "nodesize:call:" + nm, f.loc(node),
                              "heap walk uses %s bytes for %s calls, allocated with %s" % (node.x[1], nm, sizes), "size of call " + nm)


def check_registration(ctx, prog):
    """root-like objects register in every constructor and deregister in the destructor"""
    spec = [("MiniZinc::KeepAlive", "MiniZinc::GC::addKeepAlive", "MiniZinc::GC::removeKeepAlive"),
            ("MiniZinc::WeakRef", "MiniZinc::GC::addWeakRef", "MiniZinc::GC::removeWeakRef"),
            ("MiniZinc::ASTNodeWeakMap", "MiniZinc::GC::addNodeWeakMap", "MiniZinc::GC::removeNodeWeakMap"),
            ("MiniZinc::GCMarker", "MiniZinc::GC::add", "MiniZinc::GC::remove")]
    for cls, add, rem in spec:
        adders = set(f.key for f in prog.byq.get(add, []))
        reloc = set(f.key for f in prog.byq.get("MiniZinc::GC::relocateKeepAlive", []))
        remk = set(f.key for f in prog.byq.get(rem, []))
        can = prog.can_reach(adders | reloc)
        canr = prog.can_reach(remk)
        for f in prog.F.values():
            if f.cls != cls or f.defaulted:
                continue
            if f.kind == "ctor":
                ctx.check(f.key in can, "register:%s" % f.key, f.loc(), "constructor %s does not register the object with the collector" % f.key,
                          "ctor of %s registers" % cls)
            elif f.kind == "dtor":
                ctx.check(f.key in canr, "deregister:%s" % f.key, f.loc(), "destructor of %s does not deregister" % cls, None)


def check_sweep(ctx, prog):
    """the sweep releases only unmarked nodes, keeps pages with a live node, resets weak links and drops dead strings"""
    f = prog.fq1("MiniZinc::GC::Heap::sweep")
    closure = [f] + [g for g in prog.callees_of(f) if g.cls in ("MiniZinc::GC::Heap", "MiniZinc::GC")]
    GM, ID = "MiniZinc::ASTNode::_gcMark", "MiniZinc::ASTNode::_id"
    for g in closure:
        env = Env(g)
        guards = {}
        for n in g.nodes:
            # page release: guarded by a flag that every live node clears
            if n.k == "mcall" and n.mname in ("push_back", "emplace_back") and "HeapPage *" in (n.c[0].type or ""):
                flags = []
                for cond, kind, lab, term in controlling(n):
                    if cond is None:
                        continue
                    c = strip(cond)
                    if c.k == "un" and c.x[0] == "!":
                        c = strip(c.c[0])
                    if c.k == "ref" and c.x[0] == "v" and c.type == "bool":
                        flags.append(c.x[2])
                if not flags:
                    ctx.skip("page release without a flag at %s" % g.loc(n))
                for v in flags:
                    ok = False
                    for m in g.nodes:
                        if m.k == "bin" and m.x[0] == "=" and strip(m.c[0]).k == "ref" and strip(m.c[0]).x[0] == "v" and \
                                strip(m.c[0]).x[2] == v:
                            rd = set()
                            mine = False
                            inner = []
                            for cond, kind, lab, term in controlling(m):
                                if cond is None:
                                    continue
                                fs = set(simp(x) for x in all_fields(prog, cond, env))
                                if GM in fs:
                                    mine = True
                                rd |= fs
                            rd -= {GM, ID, "MiniZinc::HeapPage::used", "MiniZinc::HeapPage::next", "MiniZinc::GC::Heap::_page",
                                   "used", "next"}
                            rd = set(x for x in rd if "HeapPage" not in x)
                            if mine and not rd:
                                ok = True
                    ctx.check(ok, "sweep:page-flag", g.loc(n), "a heap page can be released although it holds a live node",
                              "page release flag cleared by every live node")
            # node release
            rel = None
            if n.k == "mcall" and n.mname in ("push_back", "emplace_back") and "NodeInfo" in (n.c[0].type or ""):
                rel = "node put on the free list"
            if n.is_call() and n.cq == "MiniZinc::ASTStringData::destroy":
                rel = "string dropped from the interning table"
            if rel:
                fs = []
                for cond, kind, lab, term in controlling(n):
                    if cond is not None and GM in set(simp(x) for x in all_fields(prog, cond, env)):
                        c = strip(cond)
                        pos = canon(c)
                        want0 = (c.k == "bin" and c.x[0] == "==" and lab is True) or (c.k == "bin" and c.x[0] == "!=" and lab is False) \
                            or (c.k == "un" and c.x[0] == "!" and lab is True) or (c.k == "mem" and lab is False)
                        fs.append(want0)
                ctx.check(any(fs), "sweep:release", g.loc(n), "%s without testing that it is unmarked" % rel, rel)
    keys = set(x.key for x in closure)
    cl = prog.reach([f])
    ctx.check(any(prog.F[k].q == "MiniZinc::ASTStringData::destroy" for k in cl), "sweep:strings", f.loc(),
              "dead strings are not removed from the interning table", "dead strings leave the interning table")
    n = 0
    for g in closure:
        for m in g.nodes:
            if m.k == "mcall" and m.cq == "MiniZinc::VarDecl::flat" and len(m.c) == 2:
                n += 1
    ctx.check(n >= 1, "sweep:flat", f.loc(), "weak links from declarations to their flat version are never reset", None)
    # weak entries of key tables are purged
    fx = [g for g in prog.F.values() if g.name == "fixWeakRefs" and g.cls != "MiniZinc::GCMarker"]
    ctx.count("weak_tables", len(fx))
    h = prog.fq1("MiniZinc::GC::Heap::mark")
    reached = prog.reach([h])
    for g in fx:
        ctx.check(g.key in reached, "weak-table:" + (g.cls or ""), g.loc(), "weak table %s is never purged" % g.q, g.q)
