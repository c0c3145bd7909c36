"""C04: generic traversals reach every child of every kind and call the kind's own callback."""
import re
from ..facts import AnalysisError, last_name
from ..flow import Env, strip, canon, controlling, bind, node_block
from ..prov import all_fields
from ..writes import Sources, linear
from ..must import must_hit, edge_cond, null_test, enclosing_loops, LOOPS, body_entries
from .c01 import simp, kind_constants
from .c03 import case_blocks

EXPLANATION = (
    "Coverage analysis of every instantiation of the generic expression walks (top_down, bottom_up) and of the item iterator. "
    "Obligations: every child field in the class definition of each expression kind (operands, vectors, generators by role, "
    "then/else parts, declarations, domains) must be put on the work list on every path through that kind's case (complete "
    "loops, element pushed in every iteration, null children excepted), annotations before the kinds are distinguished, and "
    "the callback invoked in a kind's case is the one declared for that kind, on every path. Items: all items of the model and "
    "of each included model are visited and dispatched to the callback of their kind.")

N = "MiniZinc::"
EX = N + "Expression"
EXEMPT = {
    ("BinOp", "_decl"): "cache", ("UnOp", "_decl"): "cache", ("BinOp", "_placeholder"): "padding", ("VarDecl", "_flat"): "weak link",
    ("VarDecl", "_id"): "name, not a use", ("VarDecl", "_payload"): "index", ("Let", "_letOrig"): "saved originals", ("Id", "_decl"): "reference, not a child",
    ("Id", "_vOrIdn"): "name", ("FieldAccess", "_field"): "literal", ("SetLit", "_u"): "values", ("TIId", "_v"): "name",
    ("StringLit", "_v"): "value", ("IntLit", "_v"): "value", ("FloatLit", "_v"): "value", ("BoolLit", "_v"): "value",
    ("ArrayLit", "_dims"): "values", ("Comprehension", "_gIndex"): "values", ("Call", "_uId"): "name", ("Call1", "_data"): "as Call",
    ("Call2", "_data"): "as Call", ("Call3", "_data"): "as Call", ("Call4", "_data"): "as Call", ("CallNary", "_args"): "as Call",
    ("ArrayLit", "_u"): "below",
}


def children(prog, consts):
    """kind value -> list of child components (identified by field and role)"""
    out = {}
    for c, v in consts.items():
        if EX not in prog.bases(c) or c == EX:
            continue
        s = c.split("::")[-1]
        o = out.setdefault(v, [])
        for f in prog.C[c]["fields"]:
            if (s, f[0]) in EXEMPT:
                continue
            fld = c + "::" + f[0]
            if s == "Comprehension" and f[0] == "_g":
                o += [(fld, r) for r in ("in", "where", "decl")]
            elif s == "ITE" and f[0] == "_eIfThen":
                o += [(fld, r) for r in ("if", "then")]
            else:
                o.append((fld, None))
        if s == "ArrayLit":
            o.append((N + "ArrayLit::_u", None))
        if s == "Call":
            o.append((N + "Call::args", None))
    return out


ARGS = (N + "Call4::_data", N + "CallNary::_args")


class Comp(object):
    """which child components a value is"""

    def __init__(self, prog):
        self.prog = prog
        self.src = Sources(prog, lambda f, cq: [0] if cq and re.search(r"::(cast|dynamicCast|addType|dyn_cast)(<|$)", cq) else None)
        self.src.skip_contents = self.worklist

    @staticmethod
    def worklist(fn, var):
        """containers that elements are taken from again say nothing about what an element is"""
        m = getattr(fn, "_popped", None)
        if m is None:
            m = set()
            for n in fn.nodes:
                if n.k == "mcall" and n.mname in ("pop_back", "pop", "pop_front"):
                    o = strip(n.c[0])
                    if o.k == "ref":
                        m.add(o.x[2])
            fn._popped = m
        return var in m

    def ids(self, node, env):
        out = set()
        for f, c in self.src.of(node, env):
            f = simp(f)
            if f in ARGS:
                out.add((N + "Call::args", None))
            else:
                out.add((f, None))
        for i, e2, f in self.src.elems:
            f = simp(f)
            l = linear(self.prog, i, e2)
            k = l.get("", 0)
            syms = {s: v for s, v in l.items() if s != "" and v}
            if f == N + "Comprehension::_g":
                gi = [s for s in syms if not re.match(r"\w+#\d+@", s)]
                if gi:
                    rest = [s for s in syms if s not in gi]
                    if not rest:
                        out.add((f, {0: "in", 1: "where"}.get(k, "decl?")))
                    elif k == 2:
                        out.add((f, "decl"))
                else:
                    out.update((f, r) for r in ("in", "where", "decl"))
            elif f == N + "ITE::_eIfThen":
                if len(syms) == 1 and list(syms.values()) == [2]:
                    out.add((f, "if" if k == 0 else "then" if k == 1 else "?"))
                elif len(syms) == 1 and list(syms.values()) == [1]:
                    out.update((f, r) for r in ("if", "then"))
        if not self.src.elems:
            # pushing a whole vector: all roles
            pass
        return out


def is_push(n):
    return n.k == "mcall" and n.mname in ("push_back", "emplace_back", "push", "emplace", "push_front", "insert") and len(n.c) >= 2


class Walk(object):
    def __init__(self, prog, fn, comp):
        self.prog, self.fn, self.comp = prog, fn, comp
        self.memo = {}

    def hits(self, fn, env, want):
        """nodes of fn that put component `want` on a work list"""
        out = []
        for n in fn.nodes:
            if is_push(n):
                for a in n.c[1:]:
                    if want in self.comp.ids(a, env):
                        out.append(n)
                        break
                else:
                    # range insertion: insert(end, v.begin(), v.end())
                    if n.mname == "insert" and any((want[0], None) in self.comp.ids(a, env) for a in n.c[1:]):
                        out.append(n)
            elif n.k in ("call", "mcall", "ocall") and n.callee in self.prog.F:
                t = self.prog.F[n.callee]
                if t.file != self.fn.file or t.key in env.chain() or env.depth > 3:
                    continue
                e2 = bind(self.prog, env, n, t)
                h = self.hits(t, e2, want)
                if h and must_hit(t, [t.entry], h, None, self.skip(t, e2, want)):
                    out.append(n)
        return out

    def skip(self, fn, env, want):
        """edges on which the component is absent"""
        cache = {}

        def f(block, i):
            key = (block.id, i)
            if key in cache:
                return cache[key]
            r = False
            ec = edge_cond(fn, block, i)
            if ec is not None:
                nt = null_test(ec[0], ec[1])
                if nt is not None and nt[1]:
                    ids = self.comp.ids(nt[0], env)
                    r = want in ids or (want[1] is None and want in ids)
                    if not r and want[1] is not None and not any(x[1] for x in ids):
                        r = (want[0], None) in ids
            cache[key] = r
            return r
        return f


def switches(fn):
    return [n for n in fn.nodes if n.k == "switch" and "ExpressionId" in sw_type(n)]


def sw_type(n):
    for c in n.c[:3]:
        t = strip(c).type if c.k != "null" else ""
        if t and ("ExpressionId" in t or "ItemId" in t):
            return t
    return ""


def in_switch(n, sw):
    return any(p is sw for p in n.ancestors())


def main_loop(n):
    """innermost loop around the switch (the work-list loop)"""
    for p in n.ancestors():
        if p.k in LOOPS:
            return p
    return None


def callback(prog, consts, n, root=EX):
    """kind value of a visitor callback call"""
    if n.k not in ("mcall", "call") or not n.mname.startswith("v"):
        return None
    a = n.args()
    if not a:
        return None
    t = (a[0].type or "").replace("const ", "").rstrip("* ").strip()
    if t in consts and root in prog.bases(t) and re.match(r"v[A-Z]", n.mname):
        return consts[t]
    return None


def check(ctx):
    prog = ctx.prog
    consts = kind_constants(prog)
    names = {}
    for c, v in consts.items():
        names.setdefault(v, c.split("::")[-1])
    kids = children(prog, consts)
    comp = Comp(prog)
    runs = [f for f in prog.F.values() if f.name == "run" and re.match(r"MiniZinc::(BottomUp|TopDown)Iterator<", f.cls or "")]
    if not runs:
        runs = [f for f in prog.F.values() if f.file.endswith("astiterator.hh") and f.cls and len(f.params) == 1 and switches(f)]
    if len(runs) < 10:
        raise AnalysisError("generic traversals not found")
    exprkinds = sorted(set(v for c, v in consts.items() if EX in prog.bases(c) and c != EX))
    for f in sorted(runs, key=lambda f: f.key):
        ctx.count("walks")
        what = f.cls.split("<")[0].split("::")[-1]
        env = Env(f)
        w = Walk(prog, f, comp)
        cases = case_blocks(f)
        sws = switches(f)
        if not sws:
            ctx.bad("walk:%s" % what, f.loc(), "the walk does not distinguish expression kinds")
            continue
        loop = main_loop(sws[0])
        casenodes = {}
        for v, bs in cases.items():
            casenodes[v] = bs
        pushsw = None
        for v in exprkinds:
            for want in kids.get(v, ()):
                ctx.count("children")
                label = "%s%s" % (want[0].split("::", 1)[1], ":" + want[1] if want[1] else "")
                hits = w.hits(f, env, want)
                ok = any(must_hit(f, [b], [h for h in hits], loop, w.skip(f, env, want)) for b in casenodes.get(v, ()))
                if ok and hits:
                    for h in hits:
                        for sw in sws:
                            if in_switch(h, sw):
                                pushsw = sw
                ctx.check(ok, "walk:%s:%s" % (what, label), f.file + ":%d" % (f.nodes[min(f.cfg[b].label for b in casenodes[v])].line if casenodes.get(v) else f.line),
                          "%s does not visit %s of every %s" % (what, label, names[v]), "%s visits %s" % (what, label))
            # callbacks
            cbs = [n for n in f.nodes if callback(prog, consts, n) == v]
            ctx.count("callbacks")
            ok = any(must_hit(f, [b], cbs, loop) for b in casenodes.get(v, ())) if cbs else False
            ctx.check(ok, "walk:%s:callback:%s" % (what, names[v]), f.loc(cbs[0]) if cbs else f.loc(),
                      "%s does not report every %s to its callback" % (what, names[v]), None)
        # a callback only runs for its own kind
        for n in f.nodes:
            v = callback(prog, consts, n)
            if v is None:
                continue
            labs = set()
            for cond, kind, lab, term in controlling(n):
                if kind == "switch" and lab is not None and lab.k == "case":
                    x = lab
                    labs.add(int(x.x[0]))
                    while x.p is not None and x.p.k == "case":
                        x = x.p
                        labs.add(int(x.x[0]))
            ctx.check(labs == {v}, "walk:%s:foreign:%s" % (what, names[v]), f.loc(n),
                      "callback for %s runs in the case of %s" % (names[v], ", ".join(names.get(l, "?") for l in sorted(labs)) or "any kind"))
        # annotations
        want = (EX + "::_ann", None)
        hits = w.hits(f, env, want)
        if loop is not None and pushsw is not None:
            tgt = node_block(strip(pushsw.c[2] if pushsw.c[2].k != "null" else pushsw.c[0]))
            start = body_entries(f, loop)

            def skip(block, i):
                ec = edge_cond(f, block, i)
                if ec is None:
                    return False
                c = strip(ec[0])
                t = ec[1]
                while c.k == "un" and c.x[0] == "!":
                    c, t = strip(c.c[0]), not t
                return c.k in ("mcall", "call") and c.mname == "enter" and not t
            ok = bool(hits) and must_hit(f, start, hits, loop, skip, {tgt})
            ctx.check(ok, "walk:%s:annotations" % what, f.loc(), "%s does not visit all annotations of an expression" % what,
                      "%s visits annotations" % what)
    check_entries(ctx, prog, runs)
    check_items(ctx, prog, consts)
    ctx.need("walks", 20)
    ctx.need("children", 400)
    ctx.need("item_callbacks", 7)


def check_entries(ctx, prog, runs):
    """the convenience functions run the walk on the given expression"""
    keys = set(f.key for f in runs)
    for nm in ("top_down", "bottom_up"):
        for f in prog.byname.get(nm, []):
            if not f.q.startswith(N) or len(f.params) < 2:
                continue
            hits = [n for n in f.nodes if n.is_call() and n.callee in keys]
            pe = [p for p in f.params if "Expression *" in p[1]]
            ok = bool(hits) and must_hit(f, [f.entry], hits)
            if ok and pe:
                ok = all(any(strip(a).k == "ref" and strip(a).x[0] == "p" and strip(a).x[2] == pe[0][2] for a in h.args()) for h in hits)
            ctx.check(ok, "walk:" + nm, f.loc(), "%s does not walk the given expression" % nm)


def check_items(ctx, prog, consts):
    ITEM = N + "Item"
    itemkinds = sorted(set(v for c, v in consts.items() if ITEM in prog.bases(c) and c != ITEM))
    names = {v: c.split("::")[-1] for c, v in consts.items() if ITEM in prog.bases(c)}
    runs = [f for f in prog.F.values() if f.name == "run" and re.match(r"MiniZinc::ItemIter<", f.cls or "")]
    if len(runs) < 10:
        raise AnalysisError("item iterator not found")
    allowed_calls = ("removed", "enter", "enterModel", "find", "end", "cend", "count")
    for f in sorted(runs, key=lambda f: f.key):
        ctx.count("item_walks")
        cases = case_blocks(f)
        sws = [n for n in f.nodes if n.k == "switch" and "ItemId" in sw_type(n)]
        loop = main_loop(sws[0]) if sws else None
        if loop is None:
            ctx.bad("items:loop", f.loc(), "items are not iterated")
            continue
        for v in itemkinds:
            cbs = [n for n in f.nodes if callback(prog, consts, n, ITEM) == v]
            ctx.count("item_callbacks")
            ok = bool(cbs) and any(must_hit(f, [b], cbs, loop) for b in cases.get(v, ()))
            ctx.check(ok, "items:callback:%s" % names[v], f.loc(cbs[0]) if cbs else f.loc(),
                      "not every %s is reported to its callback" % names[v], None)
        for n in f.nodes:
            v = callback(prog, consts, n, ITEM)
            if v is None:
                continue
            labs = set()
            for cond, kind, lab, term in controlling(n):
                if kind == "switch" and lab is not None and lab.k == "case":
                    labs.add(int(lab.x[0]))
                elif cond is not None and kind in ("IfStmt", "ConditionalOperator", "BinaryOperator"):
                    # which tests may keep an item from being reported
                    calls = [m.mname for m in cond.walk() if m.is_call()]
                    okc = all(c in allowed_calls or c.startswith("operator") or c in ("m", "cast", "iid", "empty", "size") for c in calls)
                    fields = set(simp(x).split("::")[-1] for x in all_fields(prog, cond, Env(f), skipfn=lambda g, cq: last_name(cq or "") in ("enter", "enterModel")))
                    okc = okc and fields <= {"_flag1", "_id", "_m", "_flag2", "_items"}
                    ctx.check(okc, "items:condition", f.loc(cond), "items are skipped under a condition that is neither removal nor the visitor's refusal")
            ctx.check(labs == {v}, "items:foreign:%s" % names[v], f.loc(n), "callback for %s runs in another kind's case" % names[v])
        # the loop over items is a full one over the model popped
        from .c01 import full_loop
        ctx.check(full_loop(loop) is not False, "items:loop", f.loc(loop), "the loop over a model's items is not complete")
        # included models are queued
        inc = consts.get(N + "IncludeI")
        comp = Comp(prog)
        hits = [n for n in f.nodes if is_push(n) and any((N + "IncludeI::_m", None) in comp.ids(a, Env(f)) for a in n.c[1:])]
        queued = [n for n in hits if "unordered_set" not in (n.c[0].type or "") and "std::set" not in (n.c[0].type or "")]

        def skip(block, i):
            ec = edge_cond(f, block, i)
            if ec is None:
                return False
            return any(m.is_call() and m.mname in ("find", "count", "insert") for m in ec[0].walk())
        ok = bool(queued) and any(must_hit(f, [b], queued, loop, skip) for b in cases.get(inc, ()))
        ctx.check(ok, "items:includes", f.loc(), "included models are not visited", "included models are queued")
    for f in prog.byname.get("iter_items", []):
        if f.q.startswith(N) and len(f.params) >= 2:
            keys = set(g.key for g in runs)
            hits = [n for n in f.nodes if n.is_call() and n.callee in keys]
            ctx.check(bool(hits) and must_hit(f, [f.entry], hits), "items:iter_items", f.loc(), "iter_items does not run the iterator")
