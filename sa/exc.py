"""Exception flow: which exception types can leave each function (interprocedural), with a witness for each."""
import re

from .facts import last_name
from .flow import strip, in_repo

LIB = [
    (re.compile(r"^(std::)?(__cxx11::)?sto(i|l|ll|ul|ull|f|d|ld)$"), ("std::invalid_argument", "std::out_of_range")),
    (re.compile(r"^std::(vector|map|unordered_map|deque|array|basic_string)<.*>::at$"), ("std::out_of_range",)),
    (re.compile(r"^std::rethrow_exception$"), ("?",)),
]
STDBASE = {"std::runtime_error": "std::exception", "std::logic_error": "std::exception",
           "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error",
           "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error",
           "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception", "std::system_error": "std::runtime_error",
           "std::overflow_error": "std::runtime_error", "std::range_error": "std::runtime_error",
           "std::ios_base::failure": "std::system_error", "std::regex_error": "std::runtime_error"}


def clean(t):
    t = (t or "").replace("const ", "").replace("&", "").replace("class ", "").replace("struct ", "").strip()
    return t


class Exc(object):
    def __init__(self, prog):
        self.prog = prog
        self._sup = {}
        self._lamvars = {}
        self.local = {}
        self.out = {}             # function key -> {type: (node, callee key or None)}
        self._solve()

    def supers(self, t):
        s = self._sup.get(t)
        if s is None:
            s = {t}
            todo = [t]
            while todo:
                x = todo.pop()
                bs = []
                c = self.prog.C.get(x)
                if c is not None:
                    bs = [clean(b if isinstance(b, str) else b[0]) for b in c.get("bases", ())]
                elif x in STDBASE:
                    bs = [STDBASE[x]]
                elif x.startswith("MiniZinc::MultipleErrors<"):
                    bs = ["MiniZinc::Exception"]
                for b in bs:
                    if b not in s:
                        s.add(b)
                        todo.append(b)
            self._sup[t] = s
        return s

    def caught(self, handler, t):
        """does a handler of this declared type catch t: True / False / None (unknown)"""
        h = clean(handler)
        if h == "...":
            return True
        if t == "?":
            return None
        return h in self.supers(t)

    def handlers(self, tr):
        return [c for c in tr.c if c is not None and c.k == "catch"]

    def body(self, tr):
        return [c for c in tr.c if c is not None and c.k != "catch"][0]

    def call_targets(self, n):
        if not (n.is_call() or n.k in ("ctor", "new")):
            return []
        try:
            return self.prog.targets(n)
        except Exception:
            return []

    def lib(self, n):
        q = n.cq or ""
        for rx, ts in LIB:
            if rx.match(q):
                return ts
        return ()

    def scan(self, f):
        """list of (node, kind, enclosing handlers chain)"""
        r = self.local.get(f.key)
        if r is not None:
            return r
        out = []

        def go(n, chain):
            if n is None:
                return
            if n.k == "lambda":
                return
            if n.k == "try":
                hs = self.handlers(n)
                go(self.body(n), [(n, hs)] + chain)
                for h in hs:
                    for c in h.c:
                        go(c, [("in", h, n)] + chain)
                return
            if n.k == "throw":
                out.append((n, chain))
            elif n.is_call() or n.k in ("ctor", "new"):
                out.append((n, chain))
            for c in n.c:
                go(c, chain)
        root = f.root
        go(root, [])
        self.local[f.key] = out
        return out

    def _escape(self, types, chain, cur):
        """types that leave the function when raised under this handler chain; rethrows are added at the handler"""
        ts = set(types)
        for e in chain:
            if e[0] == "in":
                continue
            rest = set()
            for t in ts:
                got = False
                for h in e[1]:
                    c = self.caught(h.x[0], t)
                    if c:
                        self._hin.setdefault(h.id, set()).add(t)
                        got = True
                        break
                    if c is None:
                        self._hin.setdefault(h.id, set()).add(t)
                if not got:
                    rest.add(t)
            ts = rest
            if not ts:
                break
        return ts

    def _solve(self):
        prog = self.prog
        keys = [k for k, f in prog.F.items() if f.root is not None and in_repo(f)]
        for k in keys:
            self.out[k] = {}
        self.hin = {}
        work = set(keys)
        callers = prog.callers
        order = list(keys)
        while work:
            nxt = set()
            for k in order:
                if k not in work:
                    continue
                f = prog.F[k]
                new = self._func(f)
                if set(new) != set(self.out[k]):
                    self.out[k] = new
                    for c in callers.get(k, ()):
                        if c in self.out:
                            nxt.add(c)
            work = nxt

    def raised(self, n):
        """types a call or throw may raise, with the callee that raises it"""
        out = {}
        if n.k == "throw":
            if n.x and n.x[0]:
                out[clean(n.x[0])] = None
            return out
        for t in self.lib(n):
            out[t] = None
        for g in self.call_targets(n):
            if g.key in self.out:
                for t in self.out[g.key]:
                    out.setdefault(t, g.key)
        q = n.cq or ""
        if q.startswith("std::") and n.k == "call":
            for a in n.args():
                x = strip(a)
                while x is not None and x.k in ("ctor", "temp", "bind", "mat", "cast", "icast") and x.c:
                    x = strip(x.c[0])
                if x is not None and x.k == "lambda" and x.x[0] in self.out:
                    for t in self.out[x.x[0]]:
                        out.setdefault(t, x.x[0])
        if n.k == "ocall" and not self.call_targets(n) and n.c:
            # a lambda in a local variable
            r = strip(n.c[0])
            lk = self._lam(r)
            if lk in self.out:
                for t in self.out[lk]:
                    out.setdefault(t, lk)
        return out

    def _lam(self, r):
        if r is None or r.k != "ref":
            return None
        t = r.type or ""
        return self._lambda_by_var(r)

    def _lambda_by_var(self, r):
        n = r
        while n.p is not None:
            n = n.p
        idx = self._lamvars.get(id(n))
        if idx is None or idx[0] is not n:
            idx = {}
            for v in n.walk():
                if v.k == "var" and v.c:
                    x = strip(v.c[0])
                    while x is not None and x.k in ("ctor", "temp", "bind", "mat") and x.c:
                        x = strip(x.c[0])
                    if x is not None and x.k == "lambda":
                        idx[v.x[1]] = x.x[0]
            idx = self._lamvars[id(n)] = (n, idx)
        return idx[1].get(r.x[2]) if len(r.x) > 2 else None

    def _func(self, f):
        self._hin = {}
        out = {}
        items = self.scan(f)
        rethrows = []
        for n, chain in items:
            if n.k == "throw" and not (n.x and n.x[0]):
                rethrows.append((n, chain))
                continue
            r = self.raised(n)
            if not r:
                continue
            for t in self._escape(r, chain, f):
                out.setdefault(t, (n, r[t]))
        # rethrow inside a handler passes on what the handler may have caught (iterate for nested ones)
        for _ in range(3):
            for n, chain in rethrows:
                h = next((e[1] for e in chain if e[0] == "in"), None)
                if h is None:
                    out.setdefault("?", (n, None))
                    continue
                i = [j for j, e in enumerate(chain) if e[0] == "in" and e[1] is h][0]
                ts = self._hin.get(h.id, set())
                for t in self._escape(ts, chain[i + 1:], f):
                    out.setdefault(t, (n, None))
        self.hin[f.key] = self._hin
        return out

    def path(self, key, t, limit=12):
        """witness: functions from key down to the throw of t"""
        res = []
        while key in self.out and t in self.out[key] and len(res) < limit:
            n, g = self.out[key][t]
            f = self.prog.F[key]
            res.append("%s (%s)" % (f.q, f.loc(n)))
            if g is None:
                break
            key = g
        return res


def exc(prog):
    e = getattr(prog, "_exc", None)
    if e is None:
        e = prog._exc = Exc(prog)
    return e
