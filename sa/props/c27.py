"""C27: what is sent to the user is terminated and flushed before the program goes on."""
import re
from ..flow import strip
from .. import must

EXPLANATION = (
    "Forward may-analysis over the classes that pass a solver's output on to the user (Solns2Out, Solns2OutInteractive, Solns2Log), inlining the calls among them: every write to an "
    "output stream makes it 'unflushed' until flush()/<< flush/<< endl on that stream (or the branch on which flushing was switched off by option), and 'open' until a text ending in a "
    "newline is written (or the branch on which the separator is configured to be empty). No stream may be unflushed when a function called from outside returns, nor be flushed "
    "or left while the last line is open.")

FAMILY = ("Solns2Out", "Solns2OutInteractive", "Solns2Log")
# functions whose output is not a solution, status line or message
NOT_MESSAGES = {"printStatistics": "statistics block", "flushStatistics": "statistics block", "parseStatistics": "statistics block", "checkStatistics": "text collected for a statistics block",
                "printHelp": "help text"}
# an interactive solver's own text, passed on as it comes (prompts have no line end)
VERBATIM = {"Solns2OutInteractive": "prompts are shown without a line end", "Solns2Log": "a solver's text is passed on verbatim"}


# streams that get a copy of what was received, line by line or not
COPIES = ("m:_outStreamRaw",)


def cls(f):
    return (f.cls or "").split("::")[-1]


def is_stream(t):
    t = t or ""
    return "ostream" in t or "ofstream" in t or "stringstream" in t


class Flow(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.memo = {}
        self.touch = {}
        self.flags = set()
        self.sites = set()
        self.opened = {}  # (class, site of flush) -> open sites

    # ---- streams
    def stream(self, f, n, params, depth=0):
        n = strip(n)
        if n is None or depth > 30:
            return None
        if n.is_call() and n.mname == "getOutput":
            return "out"
        if n.k == "ocall" and n.mname in ("operator<<",):
            return self.stream(f, n.c[0], params, depth + 1)
        if n.k in ("mcall",) and n.mname in ("flush", "write", "put") and n.c:
            return self.stream(f, n.c[0], params, depth + 1)
        if n.k == "ocall" and n.mname in ("operator*", "operator->"):
            return self.stream(f, n.c[0], params, depth + 1)
        if n.k == "mcall" and n.mname == "get" and n.c:
            return self.stream(f, n.c[0], params, depth + 1)
        if n.k == "un" and n.x[0] in ("*", "&"):
            return self.stream(f, n.c[0], params, depth + 1)
        if n.k == "mem" and is_stream(n.type):
            m = n.x[0]
            return "out" if m in ("_os", "_outStream") else "m:" + m
        if n.k == "ref" and n.x[0] == "p" and is_stream(n.type):
            return params.get(n.x[1], "p:" + n.x[1])
        if n.k == "ref" and n.x[0] == "v" and is_stream(n.type):
            for g in [f] + self.enclosing(f):
                for x in g.walk():
                    if x.k == "var" and len(x.x) > 1 and x.x[0] == n.x[1] and (g is not f or x.x[1] == n.x[2]):
                        if x.c and "&" in (x.type or ""):
                            return self.stream(g, x.c[0], params, depth + 1)
                        return "v:%s:%s" % (g.key, n.x[1])
            return "v:%s:%s" % (f.key, n.x[1])
        return None

    # ---- texts
    def ends_line(self, f, n, st, depth=0):
        """is the text certain to be empty or to end in a newline? None: not certain"""
        n = strip(n)
        if n is None or depth > 8:
            return False
        if n.k == "str":
            return str(n.x[0]).endswith("\n") or n.x[0] == ""
        if n.k == "int":
            return str(n.x[0]) == "10"
        if n.k == "ref" and n.x[0] in ("f", "g") and str(n.x[1]).split("::")[-1].split("<")[0] in ("endl",):
            return True
        if n.k == "mcall" and n.mname == "str" and n.c:
            s = self.stream(f, n.c[0], {})
            return s is not None and s.startswith("v:") and not st.get(s, (frozenset(), frozenset()))[1]
        if n.k == "bin" and n.x[0] == "+" or n.k == "ocall" and n.mname == "operator+":
            return self.ends_line(f, n.c[1], st, depth + 1)
        if n.k in ("ctor", "bindtmp", "mattmp") and n.c:
            return self.ends_line(f, n.c[0], st, depth + 1)
        if n.k == "mem" and "basic_string<" in (n.type or ""):
            return self.lines_member(n.x[1])
        return False

    def lines_member(self, q):
        """a string member that only ever gets whole lines added"""
        k = ("lines", q)
        if k not in self.memo:
            self.memo[k] = True
            ok = n_w = 0
            for g in self.prog.F.values():
                if g.body is None or cls(g) not in FAMILY:
                    continue
                for x in g.walk():
                    if x.k == "ocall" and x.mname in ("operator=", "operator+=") and strip(x.c[0]).k == "mem" and strip(x.c[0]).x[1] == q:
                        n_w += 1
                        ok += bool(self.ends_line(g, x.c[1], {}))
                    elif x.k == "mcall" and x.mname in ("append", "push_back", "insert") and x.c and strip(x.c[0]).k == "mem" and strip(x.c[0]).x[1] == q:
                        n_w += 1
                        ok += bool(x.c[1:] and self.ends_line(g, x.c[-1], {}))
            self.memo[k] = n_w > 0 and ok == n_w
        return self.memo[k]

    @staticmethod
    def is_flush(n):
        n = strip(n)
        return n is not None and n.k == "ref" and str(n.x[1]).split("::")[-1].split("<")[0] in ("flush", "endl")

    # ---- one function
    def touches(self, f, depth=0):
        """does the function (or one it calls inside the family) write to or flush an output stream?"""
        if f.key in self.touch:
            return self.touch[f.key]
        self.touch[f.key] = False
        r = False
        for n in f.walk():
            if n.k == "ocall" and n.mname == "operator<<" or n.k == "mcall" and n.mname in ("flush", "write", "put"):
                s = self.stream(f, n, {})
                if s is not None and not s.startswith("v:"):
                    r = True
                    break
            if n.is_call() and (n.k in ("mcall", "call") or n.mname == "operator()"):
                for t in self.prog.targets(n):
                    g = self.prog.F.get(t) if isinstance(t, str) else t
                    if g is not None and g.body is not None and g.key != f.key and self.inline(g) and depth < 6 and self.touches(g, depth + 1):
                        r = True
                        break
            if r:
                break
        self.touch[f.key] = r
        return r

    def inline(self, g):
        if g.islambda:
            return any(self.inline(h) for h in self.enclosing(g)[:1])
        return cls(g) in FAMILY and g.q.split("::")[-1] not in NOT_MESSAGES or g.file.endswith(("solns2out.cpp", "solns2out.hh")) and not g.cls

    def run(self, f, init, params, depth=0):
        key = (f.key, tuple(sorted(init.items())), tuple(sorted(params.items())))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = dict(init)
        bl = f.cfg
        IN = {f.entry: dict(init)}
        work = [f.entry]
        out = {}
        it = 0
        while work and it < 4000:
            it += 1
            b = work.pop(0)
            st = self.block(f, bl[b], dict(IN[b]), params, depth)
            out[b] = st
            for i, s in enumerate(bl[b].succs):
                if s < 0:
                    continue
                ns = self.edge(f, bl[b], i, st, params)
                if ns is None:
                    continue
                if s not in IN:
                    IN[s] = ns
                    work.append(s)
                else:
                    m = self.join(IN[s], ns)
                    if m != IN[s]:
                        IN[s] = m
                        if s not in work:
                            work.append(s)
        res = None
        for b in bl.values():
            if f.exit in b.succs and b.id in IN and b.id != f.exit and not self.throws(f, b):
                for i, s in enumerate(b.succs):
                    if s == f.exit:
                        ns = self.edge(f, b, i, self.block(f, b, dict(IN[b.id]), params, depth), params)
                        res = ns if res is None else self.join(res, ns)
        res = dict((k, v) for k, v in (res if res is not None else init).items() if not k.startswith("v:" + f.key) and (v[0] or v[1]))
        self.memo[key] = res
        return res

    @staticmethod
    def throws(f, b):
        return any(not isinstance(e, list) and f.nodes[e].k == "throw" for e in b.elems) or b.noret

    @staticmethod
    def join(a, b):
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k, (frozenset(), frozenset())), b.get(k, (frozenset(), frozenset()))
            r[k] = (x[0] | y[0], x[1] | y[1])
        return r

    def init(self, f, n):
        """initialiser of a local variable (or of one captured by a lambda) that is not assigned afterwards"""
        for g in [f] + self.enclosing(f):
            k = ("vars", g.key)
            if k not in self.memo:
                d, w = {}, set()
                for x in g.walk():
                    if x.k == "var" and len(x.x) > 1 and x.c:
                        d[x.x[1]] = x
                        d.setdefault(x.x[0], x)
                    elif x.k in ("asg", "cas", "bin", "ocall") and x.c and (x.k != "bin" or "=" in str(x.x[0])) and \
                            (x.k != "ocall" or x.mname in ("operator=", "operator+=")) and strip(x.c[0]) is not None and \
                            strip(x.c[0]).k == "ref" and (x.k != "bin" or str(x.x[0]) not in ("==", "!=", "<=", ">=")):
                        w.add(strip(x.c[0]).x[-1])
                        w.add(strip(x.c[0]).x[1])
                self.memo[k] = (d, w)
            d, w = self.memo[k]
            u = n.x[2] if g is f and (not f.islambda or n.x[2] in d and d[n.x[2]].x[0] == n.x[1]) else n.x[1]
            if u in d and u not in w:
                return d[u].c[0]
        return None

    def enclosing(self, f):
        out = []
        while f.islambda and f.pf in self.prog.F and len(out) < 5:
            f = self.prog.F[f.pf]
            out.append(f)
        return out

    def option(self, f, n, params, depth=0):
        """which option an expression reads: 'flush', 'sep' (a separator text) or None"""
        if n is None:
            return None
        n = strip(n)
        if n is None or depth > 8:
            return None
        if n.k == "mem":
            return "flush" if n.x[0] == "flagOutputFlush" else "sep" if "eparator" in n.x[0] else None
        if n.k == "ref" and n.x[0] == "p":
            return params.get("#" + n.x[1])
        if n.k == "ref" and n.x[0] == "v":
            return self.option(f, self.init(f, n), params, depth + 1)
        if n.k in ("ctor", "bindtmp", "mattmp", "icast", "cast") and len(n.c) == 1:
            return self.option(f, n.c[0], params, depth + 1)
        return None

    def test(self, f, n, t, params, depth=0):
        """the options known on a branch: {'noflush', 'nosep'}"""
        if n is None:
            return set()
        n = strip(n)
        if n is None or depth > 12:
            return set()
        if n.k == "un" and n.x[0] == "!":
            return self.test(f, n.c[0], not t, params, depth + 1)
        if n.k == "bin" and n.x[0] in ("&&", "||"):
            if (n.x[0] == "&&") == t:
                return self.test(f, n.c[0], t, params, depth + 1) | self.test(f, n.c[1], t, params, depth + 1)
            return self.test(f, n.c[0], t, params, depth + 1) & self.test(f, n.c[1], t, params, depth + 1)
        o = self.option(f, n, params)
        if o == "flush":
            return set() if t else {"noflush"}
        if n.k == "ref" and n.x[0] == "p" and o in ("+sep", "-sep"):
            return {"nosep"} if (o == "-sep") == t else set()
        if n.k == "ref" and n.x[0] == "v":
            i = self.init(f, n)
            return self.test(f, i, t, params, depth + 1) if i is not None else set()
        if n.is_call() and n.mname == "empty" and n.c and self.option(f, n.c[0], params) == "sep":
            return {"nosep"} if t else set()
        if n.is_call() and n.mname in ("size", "length") and n.c and self.option(f, n.c[0], params) == "sep":
            return set() if t else {"nosep"}
        if (n.k == "bin" or n.k == "ocall") and len(n.c) == 2:
            op = n.x[0] if n.k == "bin" else (n.mname or "").replace("operator", "")
            a, b = (strip(x) if x is not None else None for x in n.c)
            for u, v, sw in ((a, b, False), (b, a, True)):
                if u is None or v is None:
                    continue
                z = v.k == "int" and str(v.x[0]) == "0" or v.k == "str" and v.x[0] == ""
                sz = u.is_call() and u.mname in ("size", "length") and u.c and self.option(f, u.c[0], params) == "sep" or \
                    self.option(f, u, params) == "sep" and v.k == "str"
                if z and sz:
                    if op == "==" or op == "<=" and not sw or op == ">=" and sw:
                        return {"nosep"} if t else set()
                    if op == "!=" or op == ">" and not sw or op == "<" and sw:
                        return set() if t else {"nosep"}
        return set()

    def edge(self, f, b, i, st, params):
        ec = must.edge_cond(f, b, i)
        if ec is None:
            return st
        known = self.test(f, ec[0], ec[1], params)
        if "noflush" in known:
            st = dict((k, (frozenset(), v[1])) for k, v in st.items())
        if "nosep" in known:
            st = dict((k, (v[0], frozenset())) for k, v in st.items())
        return st

    def block(self, f, b, st, params, depth):
        for el in b.elems:
            if isinstance(el, list):
                continue
            n = f.nodes[el]
            if n.k == "ocall" and n.mname == "operator<<" and len(n.c) > 1:
                s = self.stream(f, n.c[0], params)
                if s is None:
                    continue
                self.sites.add(f.loc(n))
                d, o = st.get(s, (frozenset(), frozenset()))
                at = f.loc(n)
                if self.is_flush(n.c[1]):
                    if "endl" in str(strip(n.c[1]).x[1]):
                        o = frozenset()
                    elif o and not s.startswith(("v:", "p:")):
                        self.opened.setdefault((cls(f), f.q, s, at), set()).update(o)
                    st[s] = (frozenset(), o)
                else:
                    if n.c[1] is not None and strip(n.c[1]).k == "str" and strip(n.c[1]).x[0] == "":
                        continue
                    st[s] = (d | {at}, frozenset() if self.ends_line(f, n.c[1], st) else frozenset([at]))
                continue
            if n.k == "mcall" and n.c and n.mname in ("flush", "write", "put", "str"):
                s = self.stream(f, n.c[0], params)
                if s is None:
                    continue
                d, o = st.get(s, (frozenset(), frozenset()))
                if n.mname == "flush":
                    if o and not s.startswith(("v:", "p:")):
                        self.opened.setdefault((cls(f), f.q, s, f.loc(n)), set()).update(o)
                    st[s] = (frozenset(), o)
                elif n.mname != "str":
                    self.sites.add(f.loc(n))
                    st[s] = (d | {f.loc(n)}, frozenset([f.loc(n)]))
                continue
            if n.is_call() and depth < 6:
                for t in self.prog.targets(n):
                    g = self.prog.F.get(t) if isinstance(t, str) else t
                    if g is None or g.body is None or g.cfg is None or g.key == f.key or not self.inline(g) or not self.touches(g):
                        continue
                    ps = dict(params) if g.islambda else {}
                    for p, a in zip(g.params, n.args()[1:] if n.mname == "operator()" else n.args()):
                        o = self.option(f, a, params)
                        if o is None and "bool" in str(p[1]):
                            o = "-sep" if "nosep" in self.test(f, a, True, params) else \
                                "+sep" if "nosep" in self.test(f, a, False, params) else \
                                "flush" if "noflush" in self.test(f, a, False, params) else None
                        if o is not None:
                            ps["#" + p[0]] = o
                        if is_stream(p[1]):
                            s = self.stream(f, a, params)
                            ps[p[0]] = s if s is not None else "?:" + p[0]
                    st = dict(self.run(g, st, ps, depth + 1))
        return st


def check(ctx):
    prog = ctx.prog
    fl = Flow(ctx)
    entries = 0
    told = set()
    for f in prog.F.values():
        if f.body is None or f.cfg is None or cls(f) not in FAMILY or f.q.split("::")[-1] in NOT_MESSAGES or not fl.touches(f):
            continue
        outside = [c for c in prog.callers.get(f.key, ()) if cls(prog.F[c]) != cls(f)]
        public = f.q.split("::")[-1].startswith("~") or outside
        if not public:
            continue
        entries += 1
        res = fl.run(f, {}, {})
        for s, (d, o) in sorted(res.items()):
            if s.startswith(("v:", "p:", "?:")):
                continue
            for at in sorted(d):
                if (at, s) in told:
                    continue
                told.add((at, s))
                ctx.bad("unflushed:%s:%s" % (f.q, s), at, "text written here to %s may still be unflushed when %s returns" % (name(s), f.q))
            if o and cls(f) not in VERBATIM and s not in COPIES:
                ctx.bad("open:%s:%s" % (f.q, s), sorted(o)[0], "%s may return with an unterminated line in %s" % (f.q, name(s)))
        if not any(d or (o and cls(f) not in VERBATIM and s not in COPIES) for s, (d, o) in res.items() if not s.startswith(("v:", "p:", "?:"))):
            ctx.ok("%s leaves every stream flushed and at the start of a line" % f.q)
    for (c, q, s, at), o in sorted(fl.opened.items()):
        if c in VERBATIM or s in COPIES:
            continue
        ctx.bad("flushed-open:%s:%s" % (q, s), sorted(o)[0], "the line written here to %s is flushed unterminated (%s)" % (name(s), at))
    ctx.count("functions called from outside", entries)
    ctx.count("writes followed", len(fl.sites))
    ctx.need("functions called from outside", 4)
    ctx.need("writes followed", 20)


def name(s):
    return "the user's output" if s == "out" else s.split(":")[-1]
