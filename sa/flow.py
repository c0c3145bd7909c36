"""Reusable program analyses over the fact base: value provenance (which fields an expression carries),
call-closure exploration with argument binding, control conditions, loop ranges, canonical expressions and
must-facts (guards that hold on every path)."""
from .facts import Node, AnalysisError

TRANSPARENT = ("icast", "cast", "darg")


def strip(n):
    """look through casts and single-argument copy/move constructions"""
    while True:
        if n.k in TRANSPARENT and n.c:
            n = n.c[0]
        elif n.k == "call" and n.cq in ("std::move", "std::forward", "std::ref", "std::cref") or (
                n.k == "call" and n.cq and n.cq.startswith(("std::move<", "std::forward<", "std::ref<", "std::cref<"))):
            n = n.c[0]
        else:
            return n


# ------------------------------------------------------------------ local definitions
def local_defs(fn):
    """var id -> list of expression nodes assigned to it (initialisers, assignments, range-for ranges)"""
    d = getattr(fn, "_ldefs", None)
    if d is not None:
        return d
    d = {}
    for n in fn.nodes:
        if n.k == "var":
            if n.c:
                d.setdefault(n.x[1], []).append(n.c[0])
        elif n.k == "bin" and n.x[0] == "=":
            l = strip(n.c[0])
            if l.k == "ref" and l.x[0] in ("v", "p", "s"):
                d.setdefault(l.x[2], []).append(n.c[1])
        elif n.k == "ocall" and (n.mname == "operator=") and len(n.c) == 2:
            l = strip(n.c[0])
            if l.k == "ref" and l.x[0] in ("v", "p", "s"):
                d.setdefault(l.x[2], []).append(n.c[1])
    fn._ldefs = d
    return d


class Env(object):
    """binding of a function's parameters (and this) to argument nodes of the calling context"""
    __slots__ = ("fn", "args", "this", "parent", "depth", "site", "uid")
    _n = 0

    def __init__(self, fn, args=None, this=None, parent=None, site=None):
        Env._n += 1
        self.uid = Env._n
        self.fn = fn
        self.args = args or {}
        self.this = this
        self.parent = parent
        self.site = site
        self.depth = 0 if parent is None else parent.depth + 1

    def chain(self):
        e, out = self, []
        while e is not None:
            out.append(e.fn.key)
            e = e.parent
        return out


def bind(prog, env, call, callee):
    """Env for callee when called at node `call` inside env"""
    args = {}
    a = call.args()
    ps = callee.params
    for i, p in enumerate(ps):
        if i < len(a):
            args[p[2]] = (a[i], env)
    this = (call.c[0], env) if call.k in ("mcall",) and call.c else None
    if call.k == "ocall" and callee.cls and not callee.static and call.c:
        # operator member: first operand is the object
        this = (call.c[0], env)
        args = {}
        for i, p in enumerate(ps):
            if i + 1 < len(call.c):
                args[p[2]] = (call.c[i + 1], env)
    e = Env(callee, args, this, env, call)
    return e


def in_repo(fn):
    return True


def carried(prog, node, env, out=None, depth=0, seen=None, skip_index=True, maxdepth=6):
    """set of qualified fields whose value `node` carries (through accessors, locals, parameters)"""
    if out is None:
        out = set()
    if seen is None:
        seen = set()
    st = [node]
    while st:
        n = st.pop()
        n = strip(n)
        if n.k == "mem":
            out.add(n.x[1])
            st.append(n.c[0])
            continue
        if n.k == "ref":
            kind = n.x[0]
            if kind in ("v", "s"):
                key = (env.fn.key, n.x[2])
                if key not in seen:
                    seen.add(key)
                    for d in local_defs(env.fn).get(n.x[2], ()):
                        carried(prog, d, env, out, depth, seen, skip_index, maxdepth)
            elif kind == "p":
                key = (env.fn.key, n.x[2], env.uid)
                if key not in seen:
                    seen.add(key)
                    if n.x[2] in env.args:
                        a, e2 = env.args[n.x[2]]
                        carried(prog, a, e2, out, depth, seen, skip_index, maxdepth)
                    for d in local_defs(env.fn).get(n.x[2], ()):
                        carried(prog, d, env, out, depth, seen, skip_index, maxdepth)
            elif kind == "g":
                out.add("global:" + n.x[2])
            continue
        if n.k == "this":
            if env.this is not None:
                key = (env.fn.key, "this", env.uid)
                if key not in seen:
                    seen.add(key)
                    a, e2 = env.this
                    carried(prog, a, e2, out, depth, seen, skip_index, maxdepth)
            continue
        if n.k == "?:":
            st.extend(n.c[1:])
            continue
        if n.k == "idx":
            st.append(n.c[0])
            if not skip_index:
                st.append(n.c[1])
            continue
        if n.k == "ocall" and n.mname in ("operator[]",):
            # element access: follow accessor body and base
            st.append(n.c[0])
            f = prog.F.get(n.callee)
            if f is not None and depth < maxdepth:
                _ret(prog, f, n, env, out, depth, seen, skip_index, maxdepth)
            continue
        if n.k in ("mcall", "call", "ocall"):
            f = prog.F.get(n.callee)
            if f is not None and depth < maxdepth and (f.ret != "void"):
                _ret(prog, f, n, env, out, depth, seen, skip_index, maxdepth)
                if n.k == "mcall":
                    # receiver identity flows only through the body (this)
                    if f.cls is None:
                        st.append(n.c[0])
            else:
                # unknown callee (library): everything passed in may be in the result
                st.extend(n.c)
            continue
        if n.k == "ctor":
            st.extend(n.c)
            continue
        if n.k in ("lambda",):
            continue
        st.extend(n.c)
    return out


def _ret(prog, f, call, env, out, depth, seen, skip_index, maxdepth):
    """fields carried by the return values of f called at `call`"""
    if len(f.nodes) > 400:
        # too big to be an accessor: arguments are what it is about
        for a in call.c:
            carried(prog, a, env, out, depth, seen, skip_index, maxdepth)
        return
    e2 = bind(prog, env, call, f)
    if e2.depth > maxdepth:
        return
    k = f.key
    e = env
    while e is not None:
        if e.fn.key == k:
            for a in call.c:
                carried(prog, a, env, out, depth, seen, skip_index, maxdepth)
            return
        e = e.parent
    for r in f.nodes:
        if r.k == "return" and r.c:
            carried(prog, r.c[0], e2, out, depth + 1, seen, skip_index, maxdepth)


# ------------------------------------------------------------------ closure walk with bindings
def explore(prog, fn, stop=None, maxdepth=8, enter=None):
    """Yield (node, env) for all nodes of fn and of the project functions it calls, with argument binding.
    `stop(callee)` -> True: do not descend into that callee. Recursion is cut per chain."""
    start = Env(fn)
    work = [start]
    visited = set()
    while work:
        env = work.pop()
        for n in env.fn.nodes:
            yield n, env
            if n.k in ("mcall", "call", "ocall", "ctor"):
                for t in prog.targets(n):
                    if t.defaulted or (stop is not None and stop(t)):
                        continue
                    if t.key in env.chain() or env.depth >= maxdepth:
                        continue
                    k = (t.key, n.id, env.fn.key, env.uid if env.depth < 3 else 0)
                    if k in visited:
                        continue
                    visited.add(k)
                    work.append(bind(prog, env, n, t))
            elif n.k == "lambda":
                t = prog.F.get(n.x[0])
                if t is not None and t.key not in env.chain():
                    work.append(Env(t, {}, None, env, n))


# ------------------------------------------------------------------ control conditions
def conditions(n, upto=None):
    """(cond node, polarity) pairs of the syntactic conditions n is nested under (if, ?:, &&, ||, loops, switch
    cases), innermost first; early-exit guards are handled by MustFacts instead"""
    out = []
    ch, p = n, n.p
    while p is not None and ch is not upto:
        if p.k == "if":
            if ch is p.c[3]:
                out.append((p.c[2], True, "if"))
            elif ch is p.c[4]:
                out.append((p.c[2], False, "if"))
        elif p.k == "?:":
            if ch is p.c[1]:
                out.append((p.c[0], True, "?:"))
            elif ch is p.c[2]:
                out.append((p.c[0], False, "?:"))
        elif p.k == "bin" and p.x[0] == "&&" and ch is p.c[1]:
            out.append((p.c[0], True, "&&"))
        elif p.k == "bin" and p.x[0] == "||" and ch is p.c[1]:
            out.append((p.c[0], False, "||"))
        elif p.k == "while" and ch is p.c[2]:
            out.append((p.c[1], True, "loop"))
        elif p.k == "for" and ch is p.c[4]:
            out.append((p.c[2], True, "loop"))
        elif p.k == "rfor" and ch is p.c[6]:
            out.append((p, True, "rfor"))
        elif p.k in ("case", "default"):
            pass
        ch, p = p, p.p
    return out


# ------------------------------------------------------------------ canonical text of an expression
def canon(n, depth=0):
    n = strip(n)
    if depth > 12:
        return "..."
    k = n.k
    if k == "ref":
        if n.x[0] in ("v", "p", "s"):
            return "%s#%s" % (n.x[1], n.x[2])
        if n.x[0] == "e":
            return str(n.x[3])
        return str(n.x[2])
    if k == "mem":
        return canon(n.c[0], depth + 1) + "." + n.x[0]
    if k == "this":
        return "this"
    if k == "int":
        return str(n.x[0])
    if k == "bool":
        return "true" if n.x[0] else "false"
    if k == "nullptr":
        return "nullptr"
    if k == "float":
        return n.x[0]
    if k == "str":
        return repr(n.x[0])
    if k == "bin":
        return "(%s %s %s)" % (canon(n.c[0], depth + 1), n.x[0], canon(n.c[1], depth + 1))
    if k == "un":
        return "%s(%s)" % (n.x[0], canon(n.c[0], depth + 1))
    if k in ("mcall",):
        f = n.mname
        return "%s.%s(%s)" % (canon(n.c[0], depth + 1), f, ",".join(canon(a, depth + 1) for a in n.c[1:]))
    if k == "call":
        return "%s(%s)" % (n.cq, ",".join(canon(a, depth + 1) for a in n.c))
    if k == "ocall":
        f = n.mname
        return "%s(%s)" % (f, ",".join(canon(a, depth + 1) for a in n.c))
    if k == "ctor":
        if len(n.c) == 1:
            return canon(n.c[0], depth + 1)
        return "%s(%s)" % (n.cq, ",".join(canon(a, depth + 1) for a in n.c))
    if k == "idx":
        return "%s[%s]" % (canon(n.c[0], depth + 1), canon(n.c[1], depth + 1))
    if k == "?:":
        return "(%s?%s:%s)" % tuple(canon(c, depth + 1) for c in n.c)
    return "%s(%s)" % (k, ",".join(canon(c, depth + 1) for c in n.c))


# ------------------------------------------------------------------ must-facts
import re as _re

_VAR = _re.compile(r"[A-Za-z_]\w*#\d+")


class MustFacts(object):
    """Forward must-analysis over the CFG: the set of (canonical condition, truth) pairs that hold on every
    path to a node. A fact dies when a variable it mentions is assigned, incremented, or passed by
    non-const reference/address (approximated by '&x' and stream extraction)."""

    def __init__(self, fn, extra_gen=None):
        self.fn = fn
        self.blocks = fn.cfg
        self.extra_gen = extra_gen
        self.at = {}
        self._run()

    @staticmethod
    def cond_facts(n, truth):
        """facts implied by condition n being `truth`"""
        n = strip(n)
        out = []
        if n.k == "un" and n.x[0] == "!":
            return MustFacts.cond_facts(n.c[0], not truth)
        if n.k == "ocall" and (n.mname == "operator!") and len(n.c) == 1:
            return MustFacts.cond_facts(n.c[0], not truth)
        if n.k == "bin" and n.x[0] == "&&" and truth:
            return MustFacts.cond_facts(n.c[0], True) + MustFacts.cond_facts(n.c[1], True)
        if n.k == "bin" and n.x[0] == "||" and not truth:
            return MustFacts.cond_facts(n.c[0], False) + MustFacts.cond_facts(n.c[1], False)
        if n.k == "bin" and n.x[0] == "=":
            # if ((x = f()))
            return [(canon(n.c[0]), truth)]
        out.append((canon(n), truth))
        return out

    def _kills(self, n):
        """variable tokens written by evaluating node n itself"""
        k = []
        if n.k == "bin" and n.x[0] in ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="):
            k.append(n.c[0])
        elif n.k == "un" and n.x[0] in ("++", "--", "p++", "p--"):
            k.append(n.c[0])
        elif n.k == "un" and n.x[0] == "&":
            k.append(n.c[0])
        elif n.k == "ocall":
            op = n.mname
            if op in ("operator=", "operator+=", "operator-=", "operator*=", "operator++", "operator--",
                      "operator>>", "operator/=", "operator|="):
                k.append(n.c[0])
                if op == "operator>>" and len(n.c) > 1:
                    k.append(n.c[1])
        elif n.k == "mcall":
            m = n.mname
            if m in ("push_back", "emplace_back", "pop_back", "clear", "insert", "erase", "reset", "swap",
                     "resize", "assign", "str", "open", "close"):
                k.append(n.c[0])
        return k

    def _token(self, n):
        n = strip(n)
        if n.k == "ref" and n.x[0] in ("v", "p", "s"):
            return "%s#%s" % (n.x[1], n.x[2])
        if n.k == "mem":
            return "." + n.x[0]
        if n.k in ("idx",) or (n.k == "ocall" and (n.mname == "operator[]")):
            return self._token(n.c[0])
        if n.k == "un" and n.x[0] == "*":
            return self._token(n.c[0])
        return None

    @staticmethod
    def _mentions(fact, tok):
        s = fact[0]
        i = s.find(tok)
        while i >= 0:
            j = i + len(tok)
            if j >= len(s) or not (s[j].isalnum() or s[j] == "_"):
                return True
            i = s.find(tok, j)
        return False

    def _transfer(self, block, facts, record):
        facts = set(facts)
        for el in block.elems:
            if isinstance(el, list):
                if el[0] == "V":
                    tok = "#%d" % el[1]
                    facts = set(f for f in facts if not self._mentions(f, tok))
                continue
            n = self.fn.nodes[el]
            if record:
                if n.id not in self.at:
                    self.at[n.id] = frozenset(facts)
                else:
                    self.at[n.id] = self.at[n.id] & facts
            for t in self._kills(n):
                tok = self._token(t)
                if tok:
                    facts = set(f for f in facts if not self._mentions(f, tok))
            if n.k == "decl":
                for v in n.c:
                    tok = "%s#%s" % (v.x[0], v.x[1])
                    facts = set(f for f in facts if not self._mentions(f, tok))
                    if v.c:
                        facts.add((tok + " := " + canon(v.c[0]), True))
            if n.k == "bin" and n.x[0] == "=":
                tok = self._token(n.c[0])
                l = strip(n.c[0])
                if tok and l.k == "ref":
                    c = canon(n.c[1])
                    if not self._mentions((c, 1), tok):
                        facts.add((tok + " := " + c, True))
            if self.extra_gen is not None:
                facts |= set(self.extra_gen(n))
        return facts

    def _edge(self, block, i, facts):
        t = block.term
        if not t or t[2] < 0:
            return facts
        kind, tid, cid = t
        if kind == "SwitchStmt":
            succ = block.succs[i]
            if succ >= 0:
                lab = self.blocks[succ].label
                if lab >= 0:
                    ln = self.fn.nodes[lab]
                    if ln.k == "case" and ln.x[0] is not None and len(self.blocks[succ].preds) == 1:
                        return facts | {("(%s == %s)" % (canon(self.fn.nodes[cid]), ln.x[0]), True)}
            return facts
        if kind in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "ConditionalOperator", "BinaryOperator",
                    "CXXForRangeStmt") and len(block.succs) == 2:
            cond = self.fn.nodes[cid]
            # for && / || chains clang's terminator condition of the last leaf is the whole or the leaf
            truth = (i == 0)
            new = set()
            for f in self.cond_facts(cond, truth):
                new.add(f)
            # a leaf terminator of a logical operator: use the operator's left operand
            return facts | new
        return facts

    def _run(self):
        bl = self.blocks
        if bl is None:
            return
        IN = {self.fn.entry: frozenset()}
        work = [self.fn.entry]
        seen = {}
        order = 0
        outs = {}
        it = 0
        limit = 60 * len(bl) + 200
        while work:
            it += 1
            if it > limit:
                break
            b = work.pop(0)
            facts = IN[b]
            out = self._transfer(bl[b], facts, False)
            for i, s in enumerate(bl[b].succs):
                if s < 0:
                    continue
                nf = frozenset(self._edge(bl[b], i, out))
                if s not in IN:
                    IN[s] = nf
                    if s not in work:
                        work.append(s)
                else:
                    m = IN[s] & nf
                    if m != IN[s]:
                        IN[s] = m
                        if s not in work:
                            work.append(s)
        self.IN = IN
        for b in IN:
            self._transfer(bl[b], IN[b], True)

    def facts(self, node):
        """facts at the evaluation of node (or of its closest evaluated descendant/ancestor)"""
        n = node
        while n is not None:
            if n.id in self.at:
                return self.at[n.id]
            n = n.p
        return frozenset()


def mustfacts(fn):
    m = getattr(fn, "_must", None)
    if m is None:
        m = MustFacts(fn)
        fn._must = m
    return m


# ------------------------------------------------------------------ control dependence
def _postdom(fn):
    bl = fn.cfg
    exit_ = fn.exit
    ids = list(bl)
    succ = {b: [s for s in bl[b].succs if s >= 0] for b in ids}
    for b in ids:
        if not succ[b] and b != exit_:
            succ[b] = [exit_]
    # iterative post-dominator sets as bitmasks
    idx = {b: i for i, b in enumerate(ids)}
    full = (1 << len(ids)) - 1
    pd = {b: full for b in ids}
    pd[exit_] = 1 << idx[exit_]
    order = []
    seen = set()
    preds = {b: [] for b in ids}
    for b in ids:
        for s in succ[b]:
            preds[s].append(b)
    st = [exit_]
    while st:
        b = st.pop(0)
        if b in seen:
            continue
        seen.add(b)
        order.append(b)
        st.extend(preds[b])
    # infinite loops: blocks that never reach exit are treated as going there
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == exit_:
                continue
            m = full
            for s in succ[b]:
                m &= pd[s]
            m |= 1 << idx[b]
            if m != pd[b]:
                pd[b] = m
                changed = True
    return pd, idx, succ


def control_deps(fn):
    """block id -> list of (branch block id, successor index) it is directly control dependent on"""
    r = getattr(fn, "_cdeps", None)
    if r is not None:
        return r
    pd, idx, succ = _postdom(fn)
    bl = fn.cfg
    r = {b: [] for b in bl}
    for b in bl:
        ss = bl[b].succs
        if len([s for s in ss if s >= 0]) < 2:
            continue
        for i, s in enumerate(ss):
            if s < 0:
                continue
            for x in bl:
                bit = 1 << idx[x]
                # x postdominates s but does not strictly postdominate b
                if pd[s] & bit and (not (pd[b] & bit) or x == b):
                    r[x].append((b, i))
    fn._cdeps = r
    return r


def block_of(fn):
    """node id -> block id"""
    m = getattr(fn, "_bof", None)
    if m is None:
        m = {}
        for b in (fn.cfg or {}).values():
            for el in b.elems:
                if not isinstance(el, list):
                    m.setdefault(el, b.id)
        fn._bof = m
    return m


def node_block(node):
    m = block_of(node.fn)
    n = node
    while n is not None:
        if n.id in m:
            return m[n.id]
        n = n.p
    return None


def controlling(node):
    """transitive set of (condition node or None, terminator kind, successor label node or truth) that decide
    whether node's block is executed"""
    fn = node.fn
    if not fn.cfg:
        return []
    b = node_block(node)
    if b is None:
        return []
    cd = control_deps(fn)
    out, seen, st = [], set(), [b]
    while st:
        x = st.pop()
        for (c, i) in cd.get(x, ()):
            if (c, i) in seen:
                continue
            seen.add((c, i))
            st.append(c)
            t = fn.cfg[c].term
            if not t:
                continue
            cond = fn.nodes[t[2]] if t[2] >= 0 else None
            lab = None
            if t[0] == "SwitchStmt":
                l = fn.cfg[fn.cfg[c].succs[i]].label
                lab = fn.nodes[l] if l >= 0 else None
                out.append((cond, "switch", lab, fn.nodes[t[1]]))
            else:
                out.append((cond, t[0], i == 0, fn.nodes[t[1]] if t[1] >= 0 else None))
    return out
