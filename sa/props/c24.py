"""C24: no reference, pointer or iterator into a container is used after an operation that may move or remove its elements."""
from ..flow import strip, canon

EXPLANATION = (
    "For every function, local references, pointers and iterators are bound to the container (access path) whose elements they denote - through element access, "
    "begin/find/back, other such variables and accessor functions. A forward analysis over the CFG marks them stale at every operation that may move or remove elements of that "
    "container (table per container kind), including calls of functions that do so on an object reached from their receiver or parameters (transitive summaries), and reports a "
    "later use without re-binding. Loops over a container whose body changes it and then continues, and assignments to an element whose right-hand side grows the container are reported too.")

GROW = {"push_back", "emplace_back", "insert", "emplace", "erase", "resize", "reserve", "clear", "assign", "swap", "shrink_to_fit",
        "append", "operator+=", "operator=", "replace", "push_front", "emplace_front", "pop_front", "rehash", "merge", "pop_back", "push", "pop", "operator[]",
        "try_emplace", "insert_or_assign"}
ITER = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "find", "lower_bound", "upper_bound", "insert", "emplace", "erase", "equal_range"}
ELEM = {"operator[]", "at", "front", "back", "top", "data", "c_str"}


# calls followed from the use of a container to the operation that changes it; longer chains run through the evaluator and flattener,
# which reach everything, and are not decided
LIMIT = 6


def kind(t):
    t = t or ""
    t = t.replace("const ", "").strip(" &*")
    for p in ("std::", "__gnu_cxx::", "class ", "struct "):
        while t.startswith(p):
            t = t[len(p):]
    h = t.split("<")[0].split("::")[-1] if "<" in t else t.split("::")[-1]
    if "<" in t:
        h = t[:t.index("<")].split("::")[-1]
        if t.count("<") and t.rstrip()[-1] != ">":
            return None           # a member type such as vector<..>::iterator
    if h in ("vector",):
        return "vec"
    if h in ("string", "basic_string"):
        return "str"
    if h == "deque":
        return "deque"
    if h in ("unordered_map", "unordered_set", "unordered_multimap", "unordered_multiset"):
        return "hash"
    if h in ("map", "set", "multimap", "multiset", "list", "forward_list"):
        return "node"
    return None


def is_iter(t):
    t = t or ""
    return "iterator" in t


def invalidates(k, op, isiter, back):
    """does op on a container of kind k make references (isiter False) or iterators into it stale?"""
    if k in ("vec", "str"):
        if op == "pop_back":
            return back
        return op not in ("operator[]", "push", "pop") or False
    if k == "deque":
        if op in ("push_back", "push_front", "emplace_back", "emplace_front"):
            return isiter
        if op in ("pop_back",):
            return back
        return op not in ("operator[]", "push", "pop", "pop_front")
    if k == "hash":
        if op in ("clear", "operator=", "swap"):
            return True
        if op in ("insert", "emplace", "operator[]", "rehash", "reserve", "try_emplace", "insert_or_assign", "merge"):
            return isiter
        return False
    if k == "node":
        return op in ("clear", "operator=", "assign")
    return False


class C24(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.sums = {}
        self.rets = {}
        self.ren = {}
        self.own = {}
        self.depth = {}
        self.al = {}
        self.als = {}
        self.summarise()

    def enter(self, f):
        """local references stand for what they were bound to"""
        if f.key not in self.als:
            self.al = {}
            self.als[f.key] = self.al
            for n in f.walk():
                if n.k == "var" and len(n.x) > 1 and (n.type or "").rstrip().endswith("&") and n.c and n.c[0] is not None:
                    p = self.path(n.c[0])
                    if p and "[" not in p:
                        self.al[n.x[1]] = p
        self.al = self.als[f.key]

    # ---------------------------------------------------------- access paths
    def path(self, n):
        """canonical access path of an lvalue, or None when it goes through something that is not a path"""
        n = strip(n)
        if n is None:
            return None
        if n.k == "ref" and n.x[0] == "v" and n.x[2] in self.al:
            return self.al[n.x[2]]
        if n.k == "ref" and n.x[0] in ("v", "p", "s"):
            return "%s#%s" % (n.x[1], n.x[2]) if n.x[0] != "p" else "%s#p%s" % (n.x[1], n.x[2])
        if n.k == "ref" and n.x[0] == "g":
            return "::" + str(n.x[2])
        if n.k == "this":
            return "this"
        if n.k == "mem":
            b = self.path(n.c[0]) if n.c and n.c[0] is not None else "this"
            return b + "." + n.x[0] if b else None
        if n.k == "un" and n.x[0] in ("*", "&"):
            return self.path(n.c[0])
        if n.k == "idx" or n.k == "ocall" and n.mname == "operator[]":
            b = self.path(n.c[0])
            return b + "[" + canon(n.c[-1]) + "]" if b else None
        if n.k == "ocall" and n.mname in ("operator*", "operator->") and len(n.c) == 1:
            return self.path(n.c[0])
        if n.k == "mcall" and n.mname in ("get", "operator->", "operator*") and n.c:
            return self.path(n.c[0])
        if n.k == "mcall" and n.c and not n.args():
            # simple accessor of the project
            for t in self.prog.targets(n):
                g = self.prog.F.get(t) if isinstance(t, str) else t
                if g is not None and g.body is not None:
                    r = [x for x in g.walk() if x.k == "return" and x.c]
                    if len(r) == 1:
                        keep, self.al = self.al, {}
                        q = self.path(r[0].c[0])
                        self.al = keep
                        b = self.path(n.c[0])
                        if q and b and (q == "this" or q.startswith("this.")):
                            return b + q[4:]
            return None
        return None

    def into(self, n, fn, bound, depth=0):
        """set of (container path, kind, back) an lvalue/iterator expression points into"""
        n = strip(n)
        out = set()
        if n is None or depth > 8:
            return out
        if n.k == "ref" and n.x[0] == "v":
            return set(bound.get(n.x[2], ()))
        if n.k == "un" and n.x[0] in ("*", "&", "++", "--", "p++", "p--"):
            b = strip(n.c[0])
            if n.x[0] == "*" and not is_iter(b.type) and b.k in ("mem", "mcall", "call", "ocall", "idx") and b.mname not in ("data", "begin", "end"):
                return out          # a pointer stored somewhere leads away from the container it is stored in
            return self.into(b, fn, bound, depth + 1)
        if n.k == "bin" and n.x[0] in ("+", "-"):
            return self.into(n.c[0], fn, bound, depth + 1)
        if n.k == "mem" and n.c and n.c[0] is not None:
            if n.x[2] and not is_iter(strip(n.c[0]).type) and strip(n.c[0]).k != "this":
                b = strip(n.c[0])
                # p->x with p a raw pointer variable into a container stays inside; other pointers lead away
                if b.k == "ref" and b.x[0] == "v" or b.k == "un" and b.x[0] == "&":
                    return self.into(b, fn, bound, depth + 1)
                if b.k == "ocall" and b.mname == "operator->" and is_iter(strip(b.c[0]).type):
                    return self.into(b.c[0], fn, bound, depth + 1)
                return out
            return self.into(n.c[0], fn, bound, depth + 1)
        if n.k == "ocall" and n.mname in ("operator->", "operator*") and len(n.c) == 1:
            b = strip(n.c[0])
            return self.into(b, fn, bound, depth + 1) if is_iter(b.type) else out
        if n.k == "ocall" and n.mname in ("operator+", "operator-", "operator++", "operator--"):
            return self.into(n.c[0], fn, bound, depth + 1) if n.c else out
        base = op = None
        if n.k == "ocall" and n.mname == "operator[]" and len(n.c) == 2:
            base, op = n.c[0], n.mname
        elif n.k == "mcall" and n.mname in ELEM | ITER and n.c:
            base, op = n.c[0], n.mname
        if base is not None:
            k = kind(strip(base).type)
            if k:
                p = self.path(base)
                if p:
                    out.add((p, k, op in ("back", "end", "rbegin")))
                out |= self.into(base, fn, bound, depth + 1)
                return out
        if n.k in ("mcall", "call", "ocall"):
            for t in self.prog.targets(n):
                g = self.prog.F.get(t) if isinstance(t, str) else t
                if g is None or g.body is None:
                    continue
                for q, k, b in self.returns(g, depth):
                    r = self.rename(q, n, g)
                    if r:
                        out.add((r, k, b))
        return out

    def returns(self, g, depth):
        """containers a function's result refers into (result is a reference or iterator)"""
        if g.key in self.rets:
            return self.rets[g.key]
        self.rets[g.key] = set()
        rt = (g.ret or "").rstrip()
        if not (rt.endswith("&") or is_iter(rt)) or depth > 6:
            return set()
        out = set()
        keep = self.al
        self.enter(g)
        for r in g.walk():
            if r.k == "return" and r.c:
                out |= self.into(r.c[0], g, {}, depth + 1)
        self.al = keep
        self.rets[g.key] = out
        return out

    def rename(self, q, call, g):
        """path of callee g in terms of the caller at node call"""
        if q == "this" or q.startswith("this.") or q.startswith("this["):
            if call.k == "mcall" and call.c:
                b = self.path(call.c[0])
                return b + q[4:] if b else None
            if call.k == "ocall" and call.c:
                b = self.path(call.c[0])
                return b + q[4:] if b else None
            return None
        if q.startswith("::"):
            return q
        head = q.split(".")[0].split("[")[0]
        if "#p" not in head:
            return None
        nm = head.split("#")[0]
        args = call.args()
        for i, pr in enumerate(g.params):
            if pr[0] == nm and i < len(args):
                b = self.path(args[i])
                return b + q[len(head):] if b else None
        return None

    # ---------------------------------------------------------- what a call changes
    def direct(self, n):
        """(path, kind, op) changed by node n itself"""
        if n.k == "mcall" and n.mname in GROW and n.c:
            b = strip(n.c[0])
            k = kind(b.type)
            if k:
                p = self.path(b)
                if p:
                    return p, k, n.mname
        elif n.k == "ocall" and n.mname in ("operator=", "operator+=", "operator[]") and n.c:
            b = strip(n.c[0])
            k = kind(b.type)
            if k and (n.mname != "operator[]" or k in ("hash",)):
                p = self.path(b)
                if p:
                    return p, k, n.mname
        elif n.k == "call" and n.mname in ("swap", "getline") and n.c:
            for a in n.c:
                b = strip(a)
                k = kind(b.type)
                if k:
                    p = self.path(b)
                    if p:
                        return p, k, "swap"
        return None

    def summarise(self):
        """per function: paths (rooted at this, parameters, globals) it may change, with kind and operation; a fixpoint over calls"""
        edges = {}
        calls = {}
        for f in self.prog.F.values():
            if f.body is None:
                continue
            own = set()
            cs = []
            self.enter(f)
            for n in f.walk():
                d = self.direct(n)
                if d:
                    if self.outlives(d[0], f):
                        own.add(d)
                elif n.is_call() and n.k != "icall":
                    tg = [self.prog.F.get(t) if isinstance(t, str) else t for t in self.prog.targets(n)]
                    tg = [g for g in tg if g is not None and g.body is not None]
                    if 0 < len(tg) <= 6:
                        cs.append((n, tg))
                        for g in tg:
                            edges.setdefault(g.key, set()).add(f.key)
            self.sums[f.key] = own
            self.own[f.key] = set(own)
            calls[f.key] = cs
        work = [k for k, v in self.sums.items() if v]
        pend = set()
        for k in work:
            pend |= edges.get(k, set())
        rounds = 0
        while pend and rounds < 200000:
            rounds += 1
            k = pend.pop()
            f = self.prog.F[k]
            self.enter(f)
            better = False
            new = set(self.sums[k])
            for n, tg in calls[k]:
                for g in tg:
                    for q, kd, op in self.sums.get(g.key, ()):
                        ck = (id(n), g.key, q)
                        if ck not in self.ren:
                            self.ren[ck] = self.rename(q, n, g)
                        r = self.ren[ck]
                        if r and r.count(".") + r.count("[") <= 4 and self.outlives(r, f):
                            dep = self.depth.get((g.key, q, kd, op), 0) + 1
                            if dep <= LIMIT:
                                new.add((r, kd, op))
                                o = self.depth.get((k, r, kd, op))
                                if o is None and (r, kd, op) not in self.own[k] or o is not None and dep < o:
                                    self.depth[(k, r, kd, op)] = dep
                                    better = True
            if new != self.sums[k] or better:
                self.sums[k] = new
                pend |= edges.get(k, set())

    def outlives(self, p, f):
        h = p.split(".")[0].split("[")[0]
        if h == "this" or h.startswith("::"):
            return True
        if "#p" in h:
            nm = h.split("#")[0]
            for pr in f.params:
                if pr[0] == nm:
                    t = pr[1].rstrip()
                    return t.endswith("&") or t.endswith("*") or p != h and ("*" in t or "&" in t)
        return False

    def called(self, n, f):
        out = set()
        tg = list(self.prog.targets(n))
        if len(tg) > 6:
            return out
        for t in tg:
            g = self.prog.F.get(t) if isinstance(t, str) else t
            if g is None or g.body is None:
                continue
            for q, k, op in self.sums.get(g.key, ()):
                r = self.rename(q, n, g)
                if r:
                    out.add((r, k, op))
        return out

    # ---------------------------------------------------------- per function
    def run(self, f):
        bound, vars_ = {}, {}
        changed = True
        rounds = 0
        decls = [n for n in f.walk() if n.k == "var" and len(n.x) > 1]
        assigns = [n for n in f.walk() if n.k == "bin" and n.x[0] == "=" or n.k == "ocall" and n.mname == "operator="]
        while changed and rounds < 4:
            changed = False
            rounds += 1
            for v in decls:
                t = v.type or ""
                isr = t.rstrip().endswith("&")
                ptr = t.rstrip().endswith("*")
                it = is_iter(t)
                if not (isr or ptr or it) or not v.c or v.c[0] is None:
                    continue
                src = strip(v.c[0])
                if ptr and not (src.k == "un" and src.x[0] == "&" or src.k == "mcall" and src.mname in ("data", "c_str") or
                                src.k == "ref" and src.x[0] == "v"):
                    continue
                c = self.into(src, f, bound)
                if c and not c <= bound.get(v.x[1], set()):
                    bound.setdefault(v.x[1], set()).update(c)
                    vars_[v.x[1]] = (v.x[0], it)
                    changed = True
            for a in assigns:
                l = strip(a.c[0])
                if l.k == "ref" and l.x[0] == "v" and (is_iter(l.type) or (l.type or "").rstrip().endswith("*")):
                    src = strip(a.c[1])
                    if not is_iter(l.type) and not (src.k == "un" and src.x[0] == "&"):
                        continue
                    c = self.into(src, f, bound)
                    if c and not c <= bound.get(l.x[2], set()):
                        bound.setdefault(l.x[2], set()).update(c)
                        vars_[l.x[2]] = (l.x[1], is_iter(l.type))
                        changed = True
        return bound, vars_

    @staticmethod
    def hits(path, cont):
        """does changing `path` affect elements of container `cont` (the same or an enclosing one)?"""
        return cont == path

    def changes(self, n, f):
        d = self.direct(n)
        if d:
            return [d]
        if n.is_call() and n.k != "icall":
            return list(self.called(n, f))
        return []

    def check_fn(self, f):
        ctx = self.ctx
        self.enter(f)
        bound, vars_ = self.run(f)
        elass = [n for n in f.walk() if n.k == "bin" and n.x[0] == "=" or n.k == "ocall" and n.mname == "operator="]
        if not bound and not elass:
            return
        conts = set(c[0] for s in bound.values() for c in s)
        # changes per node, only when relevant
        chg = {}
        elas = []
        for a in elass:
            c = self.into(a.c[0], f, bound) if strip(a.c[0]).k != "ref" else set()
            if c and any(x.is_call() for x in a.c[1].walk()):
                elas.append((a, c))
        allp = conts | set(c[0] for a, s in elas for c in s)
        if not allp:
            return
        for n in f.walk():
            for p, k, op in self.changes(n, f):
                if p in allp:
                    chg.setdefault(n.id, []).append((p, k, op, n))
        ctx.count("references into containers", len(bound))
        if bound:
            self.flow(f, bound, vars_, chg)
        for a, cs in elas:
            ctx.count("assignments to elements from calls")
            bad = None
            for c in cs:
                for x in a.c[1].walk():
                    for q, k2, op, n in chg.get(x.id, ()):
                        if q == c[0] and invalidates(k2, op, False, c[2]):
                            bad = (n, q, op)
            ctx.check(bad is None, "assign:%s:%s" % (f.q.split("(")[0], self.show(bad[1]) if bad else ""), f.loc(a),
                      "%s assigns to an element of `%s` while the right-hand side may move the elements (%s)" %
                      (f.q, self.show(bad[1]) if bad else "", bad[2] if bad else ""))

    @staticmethod
    def show(p):
        import re
        return re.sub(r"#p?\d+", "", p)

    def flow(self, f, bound, vars_, chg):
        ctx = self.ctx
        bl = f.cfg
        if bl is None:
            return
        # stale: var -> (op, line) ; may-analysis
        IN = {f.entry: {}}
        work = [f.entry]
        rounds = 0
        reported = {}
        cur = {}
        while work and rounds < 60 * len(bl) + 100:
            rounds += 1
            b = work.pop(0)
            st = dict(IN[b])
            for el in bl[b].elems:
                if isinstance(el, list):
                    continue
                n = f.nodes[el]
                # uses
                if n.k == "ref" and n.x[0] == "v" and n.x[2] in st and not self.target(n) and not self.flag(n):
                    reported.setdefault(n.x[2], (n, st[n.x[2]]))
                # re-binding
                if n.k == "decl":
                    for v in n.c:
                        if v.k == "var" and len(v.x) > 1:
                            st.pop(v.x[1], None)
                elif n.k == "bin" and n.x[0] == "=" or n.k == "ocall" and n.mname == "operator=":
                    l = strip(n.c[0])
                    if l.k == "ref" and l.x[0] == "v":
                        st.pop(l.x[2], None)
                for p, k, op, m in chg.get(n.id, ()):
                    for u, cs in bound.items():
                        for c in cs:
                            if self.hits(p, c[0]) and invalidates(k, op, vars_[u][1], c[2]) and not self.result_of(m, u):
                                st[u] = (op, m)
                    # an iterator that was itself erased
                if n.k == "mcall" and n.mname == "erase" and n.c and kind(strip(n.c[0]).type) in ("hash", "node"):
                    for a in n.args():
                        r = strip(a)
                        if r.k == "ref" and r.x[0] == "v" and r.x[2] in bound and not self.result_of(n, r.x[2]):
                            st[r.x[2]] = ("erase", n)
            for s in bl[b].succs:
                if s < 0:
                    continue
                old = IN.get(s)
                if old is None:
                    IN[s] = dict(st)
                    work.append(s)
                else:
                    new = dict(old)
                    new.update((k, v) for k, v in st.items() if k not in old)
                    if len(new) != len(old):
                        IN[s] = new
                        if s not in work:
                            work.append(s)
        for u in bound:
            if u in reported:
                n, (op, m) = reported[u]
                ctx.bad("stale:%s:%s" % (f.q.split("(")[0], vars_[u][0]), f.loc(n),
                        "`%s` refers into `%s` and is used after %s at line %d may have moved or removed the elements" %
                        (vars_[u][0], self.show(sorted(bound[u])[0][0]), self.opname(m, op), m.line))
            else:
                ctx.ok("%s: %s" % (f.q.split("(")[0], vars_[u][0]))

    @staticmethod
    def flag(n):
        """the success flag of an insertion"""
        return (n.type or "").replace("const ", "").startswith("std::pair<") and n.p is not None and n.p.k == "mem" and n.p.x[0] == "second"

    @staticmethod
    def opname(m, op):
        return op if m.mname == op else "%s (%s)" % (m.mname, op)

    @staticmethod
    def target(n):
        """is the variable only overwritten here?"""
        p, c = n.p, n
        while p is not None and p.k in ("icast", "paren"):
            c, p = p, p.p
        return p is not None and ((p.k == "bin" and p.x[0] == "=") or (p.k == "ocall" and p.mname == "operator=")) and p.c and p.c[0] is c

    @staticmethod
    def result_of(m, u):
        """it = c.erase(it) / it = c.insert(..): the variable gets the valid result"""
        p, c = m.p, m
        while p is not None and p.k in ("icast", "cast", "paren", "temp", "bind", "mat", "ctor"):
            c, p = p, p.p
        if p is None:
            return False
        if p.k == "var" and p.x[1] == u:
            return True
        if (p.k == "bin" and p.x[0] == "=") or (p.k == "ocall" and p.mname == "operator="):
            l = strip(p.c[0])
            return l.k == "ref" and l.x[0] == "v" and l.x[2] == u
        return False


def check(ctx):
    a = C24(ctx)
    for f in list(ctx.prog.F.values()):
        if f.cfg is None or f.body is None or "thirdparty" in (f.file or ""):
            continue
        a.check_fn(f)
    ctx.need("references into containers", 100)
