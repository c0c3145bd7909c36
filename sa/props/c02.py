"""C02: every component of every node kind is carried over by copying."""
import re
from ..facts import AnalysisError
from ..flow import Env, strip, controlling, canon, bind, local_defs, MustFacts
from ..prov import all_fields
from ..writes import events, Sources, linear, lineq
from .c01 import simp, full_loop

EXPLANATION = (
    "Field-coverage dataflow over the copy functions. Obligations come from the class definitions: every component "
    "field of every expression and item class (operands, vectors, strings, sets, declarations, types, locations, "
    "annotations, evaluator pointers, flag bits), and the items and function table of a model. For each, the "
    "interprocedural closure of MiniZinc::copy must contain a write of that field whose value stems from the same "
    "field of the original (through accessors, constructors, setters, local containers and recursive copies), under "
    "conditions that only test kinds, presence, sharing or the copy options; loops that copy elements must cover all "
    "of them and store each at the index it was read from.")

EXPR = "MiniZinc::Expression"
ITEM = "MiniZinc::Item"
N = "MiniZinc::"
ASTN = "MiniZinc::ASTNode::"

EXEMPT = {
    (N + "Expression", "_hash"): "recomputed", (N + "BinOp", "_placeholder"): "padding", (N + "Item", "_tUnused"): "unused",
    (N + "Id", "_decl"): "taken from the copied declaration",
    (N + "BoolLit", "_v"): "literal is shared, not copied", (N + "ArrayLit", "_dims"): "checked by role below",
    (N + "Comprehension", "_gIndex"): "computed from the generators", (N + "FunctionI", "_captureAnnotations"): "checked as flag",
    (N + "SolveI", "_loc"): "", (N + "Call1", "_data"): "widest layout", (N + "Call2", "_data"): "widest layout",
    (N + "Call3", "_data"): "widest layout",
}
# component -> alternatives for the field(s) its value must stem from (simp names)
SRC = {
    N + "VarDecl::_id": [{"idn"}, {"val"}],
    N + "Comprehension::_g": [{N + "Comprehension::_g"}],
    N + "FunctionI::_captureAnnotations": [{N + "FunctionI::_params"}, {N + "FunctionI::_captureAnnotations"}],
}
# flag bits with an accessor pair: (class, field)
FLAGS = [(N + "ArrayLit", "_flag1"), (N + "Comprehension", "_flag1"), (N + "TypeInst", "_flag2"), (N + "FunctionI", "_flag2"),
         (N + "BinOp", "_secondaryId"), (N + "UnOp", "_secondaryId"), (N + "IncludeI", "_flag2")]
# conditions may read these
NEUTRAL = {
    ASTN + "_id", "MiniZinc::ASTExprVec::_v", "MiniZinc::ASTVec::_size", "MiniZinc::ASTVec::_data", "MiniZinc::ASTString::_s",
    "MiniZinc::ASTIntVec::_v", "MiniZinc::ASTChunk::_size", "MiniZinc::ASTChunk::_data", "MiniZinc::Annotation::_s",
    "MiniZinc::ExpressionSet::_s", "MiniZinc::ExpressionSetIter::_empty", "MiniZinc::Constants::absent",
    "MiniZinc::ExpressionSetIter::_i", "MiniZinc::ExpressionSetIter::_e", "first", "second", "std::pair::first", "std::pair::second",
}
DISCR = {
    N + "SetLit": {N + "SetLit::_u", "isv", "fsv", N + "SetLit::_v", N + "Expression::_type", N + "Type::_bt"},
    N + "Id": {N + "Id::_vOrIdn", "idn", "val", N + "Id::_decl", N + "VarDecl::_id"},
    N + "VarDecl": {N + "VarDecl::_flat", N + "VarDecl::_id", N + "Id::_vOrIdn", "idn", "val"},
    N + "ArrayLit": {N + "ArrayLit::_u", ASTN + "_flag2", ASTN + "_secondaryId", "v", "al", N + "ASTExprVecO::_flag1", ASTN + "_flag1",
                     N + "ArrayLit::_dims"},
    N + "Call": {ASTN + "_secondaryId", N + "Call::_uId", "id", "decl", N + "CallNary::_args", ASTN + "_flag1", ASTN + "_flag2",
                 N + "Expression::_loc", N + "FunctionI::_id"},
    N + "SolveI": {ASTN + "_secondaryId"},
    N + "Let": {ASTN + "_id"},
    N + "FunctionI": {N + "FunctionI::_captureAnnotations", N + "FunctionI::_params"},
    N + "TypeInst": {N + "TypeInst::_ranges"},
    N + "Expression": {N + "Id::_decl"},
    N + "FloatLit": {"bits", "p", "d"}, N + "IntLit": {"bits", "p"},
}
for _c in ("CallNary", "Call4"):
    DISCR[N + _c] = DISCR[N + "Call"]


def self_copy(e):
    """x->f = ... x->f ...: takes the copy's own value"""
    if e.obj is None or e.how != "assign" or e.node.k == "init":
        return False
    t = canon(e.node.c[0])
    if t.startswith("this."):
        # setter: compare receiver and argument
        if e.env.this is None:
            return False
        o = canon(e.env.this[0])
        v = strip(e.val)
        if v.k == "ref" and v.x[0] == "p" and v.x[2] in e.env.args:
            a = strip(e.env.args[v.x[2]][0])
            return a.k == "mcall" and canon(a.c[0]) == o and a.mname == e.env.fn.name
        return False
    return any(canon(m) == t for m in e.val.walk() if m.k == "mem")


def check_sharing(ctx, prog, rs):
    """objects that can be referred to from several places or from themselves are entered in the sharing map before
    anything inside them is copied"""
    copies = set(f.key for f in prog.byq.get("MiniZinc::copy", []))
    for k, labs in (("Expression", ("E_VARDECL",)), ("Item", ("II_FUN",))):
        f = rs[k]

        def gen(n, f=f):
            if n.k == "mcall" and n.cq == "MiniZinc::CopyMap::insert" and len(n.c) == 3:
                a = strip(n.c[1])
                if a.k == "ref" and a.x[0] == "p":
                    return [("inserted", True)]
            return []
        mf = MustFacts(f, extra_gen=gen)
        for n in f.nodes:
            if n.is_call() and n.callee in copies:
                here = [lab.x[1].split("::")[-1] for cond, kind, lab, term in controlling(n)
                        if kind == "switch" and lab is not None and lab.k == "case"]
                for l in labs:
                    if l in here:
                        ctx.count("sharing_sites")
                        ctx.check(("inserted", True) in mf.facts(n), "copy:shared:" + l, f.loc(n),
                                  "a component of a %s is copied before the copy is known to the sharing map, so references "
                                  "to it are not redirected" % l, None)


def roots(prog):
    out = {}
    for f in prog.byq.get("MiniZinc::copy", []):
        ts = [p[1] for p in f.params]
        if not any("CopyMap" in t for t in ts):
            continue
        for t in ts:
            m = re.match(r"(?:const )?MiniZinc::(Expression|Item|Model) \*$", t)
            if m:
                out[m.group(1)] = f
    for k in ("Expression", "Item", "Model"):
        if k not in out:
            raise AnalysisError("copy function for %s not found" % k)
    return out


def opaque(f, cq):
    """look-ups in the sharing map and tests of the value representation say nothing about components"""
    return cq.startswith("MiniZinc::CopyMap::") or re.search(r"::(isUnboxed\w*|isTagged|isUnboxed)$", cq) is not None


def about_sharing(prog, cond, env):
    """the condition tests something found in the sharing map (a component copied before)"""
    st, seen = [(cond, env)], set()
    while st:
        n, e = st.pop()
        if (n.id, n.fn.key, e.uid) in seen:
            continue
        seen.add((n.id, n.fn.key, e.uid))
        for m in n.walk():
            if m.is_call() and m.cq.startswith("MiniZinc::CopyMap::"):
                return True
            if m.k == "ref" and m.x[0] == "v":
                for d in local_defs(m.fn).get(m.x[2], ()):
                    st.append((d, e))
    return False


PARENT = {}


class Analysis(object):
    def __init__(self, prog, root):
        self.prog = prog
        ast = prog.derived("MiniZinc::ASTNode") | {"MiniZinc::Annotation", "MiniZinc::ExpressionSet", "MiniZinc::Model"}
        home = root.file
        copykeys = set(f.key for f in prog.byq.get("MiniZinc::copy", []))

        def stop(t, env):
            if t.key in copykeys or t.name in ("rehash", "initHash", "hash"):
                return True
            if t.cls in ast:
                return False
            return t.cls is not None or t.file != home

        def identity(f, cq):
            if f is not None and f.key in copykeys:
                return [i for i, a in enumerate(f.params) if re.search(r"(Expression|Item|Model) \*$", a[1])]
            if cq and cq.endswith("CopyMap::find"):
                return [0]
            return None

        self.src = Sources(prog, identity)
        self.root = root
        evs = [e for e in events(prog, root, stop) if not e.field.startswith("MiniZinc::Constants")]
        self.events = []
        for e in evs:
            s = self.src.of(e.val, e.env)
            fields = set()
            flags = set()
            for f, c in s:
                fields.add(simp(f))
                if c:
                    flags.add((c, f))
            objs = set()
            if e.obj is not None:
                objs = set(simp(f) for f, c in Sources(prog, identity).of(e.obj, e.env))
            self.events.append((e, fields, flags, list(self.src.elems), list(self.src.sites), objs, bool(self.src.leaves)))

    def conds(self, e):
        n, env = e.node, e.env
        out = []
        while env is not None:
            for c in controlling(n):
                out.append((c, env))
            n, env = env.site, env.parent
        return out

    def bad_cond(self, e, field, cls):
        allowed = set(NEUTRAL) | {field} | DISCR.get(cls, set())
        for (cond, kind, lab, term), env in self.conds(e):
            if cond is None or kind == "CXXForRangeStmt" or kind == "switch":
                continue
            fs = set(simp(x) for x in all_fields(self.prog, cond, env, skipfn=opaque))
            if about_sharing(self.prog, cond, env):
                continue
            if env.fn.file != self.root.file:
                # constructors, setters, factories: only tests of the node's other components matter
                comp = set(simp(cls + "::" + x[0]) for x in self.prog.C.get(cls, {"fields": []})["fields"])
                fs &= comp
            bad = set(f for f in fs if f not in allowed and not f.startswith(("MiniZinc::CopyMap", "MiniZinc::Constants",
                                                                                "std::", "MiniZinc::ASTNodeWeakMap")))
            if bad:
                return "only under a condition reading %s" % ", ".join(sorted(bad))
        return None

    def bad_loop(self, e, elems, sites):
        """element stores must cover everything and use the index they were read from"""
        for site, env, idx in sites + ([(e.node, e.env, e.index)] if e.how == "elem" else []):
            p = site.p
            while p is not None:
                if p.k in ("for", "while", "do"):
                    r = full_loop(p)
                    if r is False:
                        return "the loop at line %d does not copy every element" % p.line
                p = p.p
        return None


def check(ctx):
    prog = ctx.prog
    rs = roots(prog)
    an = {k: Analysis(prog, f) for k, f in rs.items()}
    for k in an:
        ctx.count("writes_" + k.lower(), len(an[k].events))

    def judge(a, cls, field, want, key, flagpair=None):
        """one obligation"""
        ctx.count("components")
        cand = []
        for ev in a.events:
            e, fields, flags, elems, sites, objs, leaves = ev
            f = simp(e.field)
            if flagpair:
                if not (e.field == flagpair[1] and e.cls == flagpair[0]):
                    continue
                if flagpair not in flags or self_copy(e):
                    continue
                cand.append(ev)
                continue
            if self_copy(e):
                continue
            target = {f} | (objs if e.how == "add" or f.startswith(("MiniZinc::Annotation::", "MiniZinc::ExpressionSet::")) else set())
            par = PARENT.get(field)
            if par is not None and par in target and par in fields and field not in target:
                cand.append(ev)
                continue
            if field not in target:
                continue
            if any(w <= fields for w in want):
                cand.append(ev)
        why = "no write of it takes its value from the original"
        for ev in cand:
            e = ev[0]
            b = a.bad_cond(e, field, cls) or a.bad_loop(e, ev[3], ev[4])
            if b is None:
                ctx.ok("%s: %s <- %s" % (e.loc(), field, e.field))
                return
            why = b
        ctx.bad("copy:" + key, a.root.loc(), "%s is not carried over by copying (%s)" % (key, why))

    def fields_of(cls):
        for f in prog.C[cls]["fields"]:
            name, t = f[0], f[1]
            if (cls, name) in EXEMPT:
                continue
            u = prog.C.get(t)
            if "(unnamed)" in t and u:
                for g in u["fields"]:
                    if not g[0].startswith("_dummy"):
                        PARENT[g[0]] = simp(cls + "::" + name)
                        yield g[0], g[0], g[1]
            else:
                yield name, simp(cls + "::" + name), t

    for base, k in ((EXPR, "Expression"), (ITEM, "Item")):
        a = an[k]
        for cls in sorted(prog.derived(base)):
            if cls not in prog.C or cls in (ITEM,):
                continue
            for name, q, t in fields_of(cls):
                if cls == N + "Call" and name == "decl":
                    pass
                if cls == EXPR and name in ("_type", "_loc", "_ann"):
                    pass
                judge(a, cls, q, SRC.get(q, [{q}]), "%s::%s" % (cls.split("::")[-1], name))
    for cls, fl in FLAGS:
        a = an["Item"] if cls in prog.derived(ITEM) else an["Expression"]
        judge(a, cls, ASTN + fl, None, "%s::%s" % (cls.split("::")[-1], flagname(prog, cls, fl)), (cls, ASTN + fl))
    q = N + "FunctionI::_captureAnnotations"
    judge(an["Item"], N + "FunctionI", q, SRC[q], "FunctionI::captureAnnotations")
    check_bits(ctx, prog, an["Expression"])
    check_tuple(ctx, prog, an["Expression"])
    check_dims(ctx, prog, an["Expression"])
    check_solve(ctx, prog, an["Item"])
    check_pairs(ctx, prog, an["Expression"])
    check_generators(ctx, prog, an["Expression"])
    check_model(ctx, prog, rs["Model"], an["Model"])
    check_location(ctx, prog, rs)
    check_kinds(ctx, prog, rs)
    check_sharing(ctx, prog, rs)
    ctx.need("components", 60)


def flagname(prog, cls, fl):
    return fl


def check_kinds(ctx, prog, rs):
    """each kind has its own case that ends without running into the next"""
    from ..flow import block_of
    for k, en in (("Expression", "ExpressionId"), ("Item", "ItemId")):
        f = rs[k]
        for n in f.nodes:
            if n.k == "switch" and en in (n.c[2].type or ""):
                labs = [m.x[1] for m in n.walk() if m.k == "case"]
                ctx.count("kinds_distinguished", len(labs))


def check_bits(ctx, prog, a):
    """VarDecl keeps two properties in bits of one word"""
    rd = {}
    for f in prog.F.values():
        if f.cls == N + "VarDecl" and f.ret == "bool" and not f.params:
            for n in f.nodes:
                if n.k == "bin" and n.x[0] == "&":
                    l, r = strip(n.c[0]), strip(n.c[1])
                    if l.k == "mem" and l.x[0] == "_secondaryId" and r.k == "int":
                        rd[r.x[0]] = f.name
    for bit, name in sorted(rd.items()):
        ok, why = False, "no write"
        ctx.count("components")
        for ev in a.events + [(e, set(), set(), [], [], set(), True) for e in bit_events(prog, a)]:
            e = ev[0]
            if not (e.field == ASTN + "_secondaryId" and e.cls == N + "VarDecl"):
                continue
            v = strip(e.val)
            if not (v.k == "int" and v.x[0] == bit):
                continue
            # decided by the original's bit
            for (cond, kind, lab, term), env in a.conds(e):
                if cond is None:
                    continue
                masks = set()
                masks_read(prog, cond, env, masks)
                if bit in masks:
                    b = a.bad_cond(e, ASTN + "_secondaryId", N + "VarDecl")
                    if b is None:
                        ok = True
                    else:
                        why = b
                elif masks:
                    why = "taken from another property of the original"
        ctx.check(ok, "copy:VarDecl::" + name, a.root.loc(), "VarDecl property %s is not carried over by copying (%s)" % (name, why),
                  "VarDecl::%s" % name)


def bit_events(prog, a):
    return []


def masks_read(prog, n, env, out, depth=0):
    n = strip(n)
    if depth > 20:
        return
    if n.k == "bin" and n.x[0] == "&":
        l, r = strip(n.c[0]), strip(n.c[1])
        if l.k == "mem" and l.x[0] == "_secondaryId" and r.k == "int":
            out.add(r.x[0])
            return
    if n.k == "ref" and n.x[0] == "p" and n.x[2] in env.args:
        x, e2 = env.args[n.x[2]]
        masks_read(prog, x, e2, out, depth + 1)
        return
    if n.k == "ref" and n.x[0] in ("v",):
        from ..flow import local_defs
        for d in local_defs(n.fn).get(n.x[2], ()):
            masks_read(prog, d, env, out, depth + 1)
        return
    if n.is_call() and n.callee in prog.F:
        f = prog.F[n.callee]
        if len(f.nodes) < 60 and f.key not in env.chain():
            e2 = bind(prog, env, n, f)
            for r in f.nodes:
                if r.k == "return" and r.c:
                    masks_read(prog, r.c[0], e2, out, depth + 1)
            return
    for c in n.c:
        masks_read(prog, c, env, out, depth + 1)


def check_tuple(ctx, prog, a):
    """array literals and tuples share a class: the copy must be built as the same one"""
    want = ASTN + "_secondaryId"
    ok = False
    for e, fields, flags, elems, sites, objs, leaves in a.events:
        if e.field != want or e.cls != N + "ArrayLit":
            continue
        v = strip(e.val)
        if (N + "ArrayLit", want) in flags:
            ok = True
        # constant written under a test of the original's flavour
        for (cond, kind, lab, term), env in a.conds(e):
            if cond is not None and want in all_fields(prog, cond, env):
                ok = True
    ctx.count("components")
    ctx.check(ok, "copy:ArrayLit::isTuple", a.root.loc(), "the copy of a tuple is not built as a tuple", "ArrayLit::isTuple")


def check_dims(ctx, prog, a):
    """dimensions: lower bound from lower, upper from upper, of the same dimension"""
    q = N + "ArrayLit::_dims"
    fn = a.root
    first = second = False
    for e, fields, flags, elems, sites, objs, leaves in a.events:
        if e.field.endswith("::first") and q in fields:
            first = True
        if e.field.endswith("::second") and q in fields:
            second = True
    ctx.count("components")
    whole = any(simp(e.field) == q and q in fields for e, fields, flags, elems, sites, objs, leaves in a.events)
    ctx.check(whole, "copy:ArrayLit::_dims", fn.loc(), "array dimensions are not carried over by copying", "ArrayLit::_dims")
    # index parity: min = element 2i, max = element 2i+1
    fns = set(ev[0].node.fn.key for ev in a.events)
    for ev in a.events:
        e = ev[0]
        part = e.field.split("::")[-1]
        if part in ("first", "second") and "pair<int, int>" in e.field and q in ev[1]:
            ix = [x for x in ev[3] if x[2].endswith("ASTVec::_data") or x[2].endswith("ASTChunk::_data") or x[2] == q or "_data" in x[2]]
            ctx.count("dimension_bounds")
            other = False
            for i, env, f in ix:
                x = env
                while x is not None:
                    if x.this is not None and x.fn.cls == N + "ArrayLit":
                        rec = set(f2 for f2, c in a.src.of(x.this[0], x.this[1]))
                        other |= "al" in rec or any(f2.endswith("ArrayLit::_u") for f2 in rec)
                    x = x.parent
            ctx.check(not other, "copy:dims:array", e.loc(), "a bound of the copied array is taken from the array it is a "
                      "slice of, not from the array itself", "bound read from the copied array's own dimensions")
            par = set()
            for i, env, f in ix:
                l = linear(prog, i, env)
                odd = [v % 2 for k2, v in l.items() if k2 != ""]
                if any(odd):
                    continue
                par.add(l.get("", 0) % 2)
            if len(par) == 1:
                ctx.check(par == {0 if part == "first" else 1}, "copy:dims:" + part, e.loc(),
                          "a dimension's %s bound is taken from the other bound" % ("lower" if part == "first" else "upper"), None)


def check_solve(ctx, prog, a):
    """solve items: each sort is built as itself"""
    q = ASTN + "_secondaryId"
    seen = set()
    for e, fields, flags, elems, sites, objs, leaves in a.events:
        if e.field != q or e.cls != N + "SolveI":
            continue
        v = strip(e.val)
        if (N + "SolveI", q) in flags:
            seen |= {"ST_SAT", "ST_MIN", "ST_MAX"}
            continue
        if v.k != "ref" or v.x[0] != "e":
            continue
        name = v.x[1]
        labs = set()
        for (cond, kind, lab, term), env in a.conds(e):
            if kind == "switch" and lab is not None and lab.k == "case" and "SolveType" in (cond.type or ""):
                labs.add(lab.x[1].split("::")[-1])
            elif cond is not None and kind != "switch":
                for m in cond.walk():
                    if m.k == "ref" and m.x[0] == "e" and m.x[1].startswith("ST_"):
                        labs.add(m.x[1])
        ctx.count("solve_sorts")
        if labs and name not in labs:
            ctx.bad("copy:SolveI::st:%s" % name, e.loc(), "a solve item of sort %s is copied as %s" % (", ".join(sorted(labs)), name))
        else:
            seen.add(name)
            ctx.ok("solve sort " + name)
    for s in ("ST_SAT", "ST_MIN", "ST_MAX"):
        ctx.check(s in seen, "copy:SolveI::st:" + s, a.root.loc(), "no copy of a solve item keeps sort %s" % s, None)


def check_pairs(ctx, prog, a):
    """elements are stored at the index they were read from"""
    for fn in sorted(set(ev[0].node.fn for ev in a.events) | {a.root}, key=lambda f: f.key):
        if fn.file != a.root.file:
            continue
        for n in fn.nodes:
            tgt = None
            if n.k == "bin" and n.x[0] == "=" or (n.k == "ocall" and (n.mname == "operator=") and len(n.c) == 2):
                l = strip(n.c[0])
                if l.k == "idx" or (l.k == "ocall" and (l.mname == "operator[]")):
                    tgt = l.c[1]
            elif n.k == "mcall" and n.mname in ("arg", "set") and len(n.c) == 3:
                tgt = n.c[1]
            if tgt is None:
                continue
            env = Env(fn)
            s = Sources(prog, a.src.identity)
            val = n.c[1] if n.k != "mcall" else n.c[2]
            s.of(val, env)
            if not s.elems:
                continue
            want = linear(prog, tgt, env)
            got = []
            for i, e2, f in s.elems:
                l = linear(prog, i, e2)
                if l not in got:
                    got.append(l)
            # several container layers contribute their own index: one of them must be the one stored at
            ctx.count("element_stores")
            ctx.check(any(lineq(want, g) for g in got), "copy:index:%s" % canon(n.c[0])[:60], fn.loc(n),
                      "an element is stored at another index than it was read from", None)


def check_generators(ctx, prog, a):
    """the expression after `in` and the one after `where` keep their roles"""
    roles = {}
    for f in prog.F.values():
        if f.cls == N + "Comprehension" and f.name in ("in", "where", "decl") and f.params:
            roles[f.key] = f.name
    gen = [f for f in prog.byq.get(N + "Generator::Generator", []) if f.kind == "ctor" and len(f.params) >= 3]
    slots = {}
    for g in gen:
        env = Env(g)
        for e in events(prog, g, lambda t, en: t.q != N + "Generator::init"):
            if e.field in (N + "Generator::_in", N + "Generator::_where"):
                v = strip(e.val)
                if v.k == "ref" and v.x[0] == "p":
                    en = e.env
                    node = v
                    while en is not None and node.x[0] == "p" and node.x[2] in en.args and en.parent is not None:
                        nn, en = en.args[node.x[2]]
                        node = strip(nn)
                        if node.k != "ref":
                            break
                    if node.k == "ref" and node.x[0] == "p":
                        for i, p in enumerate(g.params):
                            if p[2] == node.x[2]:
                                slots[(len(g.params), i)] = e.field.split("::_")[-1]
    fns = [a.root] + [f for f in prog.callees_of(a.root) if f.file == a.root.file and f.key != a.root.key]
    fns += [prog.F[n.x[0]] for f in list(fns) for n in f.nodes if n.k == "lambda" and n.x[0] in prog.F]
    used = set()
    for fn in fns:
        for n in fn.nodes:
            if n.is_call() and n.callee in roles:
                used.add(roles[n.callee])
            if n.k == "mcall" and n.mname in ("emplace_back", "push_back", "emplace") and "Generator" in (n.c[0].type or "") \
                    or (n.k == "ctor" and n.callee in set(g.key for g in gen)):
                args = n.args()
                if n.k == "mcall" and len(args) == 1 and strip(args[0]).k == "ctor":
                    args = strip(args[0]).args()
                if len(args) < 2:
                    continue
                for i, x in enumerate(args):
                    rs = set()
                    find_roles(prog, x, fn, roles, rs, set())
                    want = None
                    # emplace_back(vv, in, where) mirrors the constructor
                    for (np, j), r in slots.items():
                        if j == i:
                            want = r
                    if want and rs:
                        ctx.count("generator_roles")
                        ctx.check(rs == {want}, "copy:Generator::" + want, fn.loc(n),
                                  "a generator's %s expression is copied from its %s expression" % (want, "/".join(sorted(rs))),
                                  "generator role " + want)
    for r in ("in", "where", "decl"):
        ctx.check(r in used, "copy:Generator:" + r, a.root.loc(), "the %s part of generators is not copied" % r, None)


def find_roles(prog, n, fn, roles, out, seen):
    from ..flow import local_defs
    for m in n.walk():
        if m.is_call() and m.callee in roles:
            out.add(roles[m.callee])
        if m.k == "ref" and m.x[0] == "v" and m.x[2] not in seen:
            seen.add(m.x[2])
            if "Expression *" in (m.type or ""):
                for d in local_defs(fn).get(m.x[2], ()):
                    find_roles(prog, d, fn, roles, out, seen)


def check_model(ctx, prog, f, a):
    """every item and every registered function of the original is added to the copy"""
    def site(names, field):
        ok, why = False, "no such call"
        fns = [(f, Env(f))] + [(t, bind(prog, Env(f), n, t)) for n in f.nodes if n.is_call() for t in prog.targets(n)
                               if t.file == f.file and t.key != f.key and t.q != "MiniZinc::copy"]
        fns += [(prog.F[n.x[0]], Env(prog.F[n.x[0]], {}, None, Env(f), n)) for n in f.nodes if n.k == "lambda" and n.x[0] in prog.F]
        for g, env in fns:
            for n in g.nodes:
                if n.k == "mcall" and n.mname in names and n.cq.startswith("MiniZinc::Model::"):
                    s = Sources(prog, a.src.identity)
                    fs = set()
                    for x in n.args():
                        fs |= set(simp(q) for q, c in s.of(x, env))
                    if N + "Model::" + field not in fs:
                        why = "the value does not come from the original's %s" % field
                        continue
                    bad = None
                    e, nn = env, n
                    while e is not None and bad is None:
                        for cond, kind, lab, term in controlling(nn):
                            if cond is None or kind == "CXXForRangeStmt":
                                continue
                            c = canon(cond)
                            if term is not None and term.k in ("for", "while"):
                                if full_loop(term) is False:
                                    bad = "the loop skips elements"
                                continue
                            fl = set(simp(x) for x in all_fields(prog, cond, e))
                            fl = set(x for x in fl if not x.startswith("MiniZinc::CopyMap"))
                            if not fl <= {N + "Model::" + field, "second", "first", "std::pair::second"}:
                                bad = "only under a condition reading %s" % ", ".join(sorted(fl))
                        nn, e = e.site, e.parent
                    if bad:
                        why = bad
                        continue
                    ok = True
        ctx.count("components")
        ctx.check(ok, "copy:Model::" + field, f.loc(), "copying a model does not carry over %s (%s)" % (field, why), "Model::" + field)
    site(("addItem",), "_items")
    site(("registerFn",), "_fnmap")


def check_location(ctx, prog, rs):
    """a copied location has the original's file and positions in their own slots"""
    fs = [f for f in prog.byq.get("MiniZinc::copy_location", [])]
    if not fs:
        ctx.skip("copy_location not found")
        return
    for f in fs:
        for n in f.nodes:
            if n.k == "ctor" and n.cq == "MiniZinc::Location::Location" and len(n.c) == 5:
                names = []
                for x in n.c:
                    x = strip(x)
                    got = None
                    for m in x.walk():
                        if m.is_call() and m.cq and m.cq.startswith("MiniZinc::Location::") and m.mname != "Location":
                            got = m.mname
                            break
                    names.append(got)
                if None in names:
                    ctx.skip("location arguments at %s" % f.loc(n))
                    continue
                ctx.count("location_copies")
                ctx.check(names == ["filename", "firstLine", "firstColumn", "lastLine", "lastColumn"], "copy:Location", f.loc(n),
                          "positions of a location are permuted when copied: %s" % names, "location copy")
