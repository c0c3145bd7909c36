"""Signatures declared in MiniZinc library files (functions, predicates, tests, annotations), without their bodies."""
import os
import re

TOK = re.compile(r'\s+|%[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'[^\'\n]+\'|\$\$?[A-Za-z_]\w*|[A-Za-z_]\w*|\d+(?:\.\d+)?(?:[eE][-+]?\d+)?'
                 r'|\.\.|::|<->|->|<-|/\\|\\/|<=|>=|==|!=|\+\+|.', re.S)


def tokens(text):
    return [t for t in TOK.findall(text) if not t.isspace() and not t.startswith("%") and not t.startswith("/*")]


class Ti(object):
    """kind of a declared parameter or result"""
    __slots__ = ("var", "opt", "set", "base", "dim", "any")

    def __init__(self):
        self.var = self.opt = self.set = self.any = False
        self.base, self.dim = None, 0

    def __repr__(self):
        return ("array[%s] of " % self.dim if self.dim else "") + ("var " if self.var else "") + \
            ("opt " if self.opt else "") + ("set of " if self.set else "") + str(self.base)


class Sig(object):
    def __init__(self, kind, name, params, ret, body, file):
        self.kind, self.name, self.params, self.ret, self.body, self.file = kind, name, params, ret, body, file

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.params)))


def split(ts, sep):
    out, cur, d = [], [], 0
    for t in ts:
        if t in "([{" and len(t) == 1:
            d += 1
        elif t in ")]}" and len(t) == 1:
            d -= 1
        if t == sep and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    out.append(cur)
    return out


def ti(ts):
    t = Ti()
    i = 0
    if i < len(ts) and ts[i] == "any" and i + 1 < len(ts) and ts[i + 1].startswith("$"):
        t.any = True
        i += 1
    if i < len(ts) and ts[i] == "list":
        t.dim = 1
        i += 2
    elif i < len(ts) and ts[i] == "array":
        d, j = 0, i + 1
        while j < len(ts):
            d += ts[j] == "["
            d -= ts[j] == "]"
            j += 1
            if d == 0:
                break
        ix = split(ts[i + 2:j - 1], ",")
        t.dim = len(ix)
        if len(ix) == 1 and len(ix[0]) == 1 and ix[0][0].startswith("$") and not ix[0][0].startswith("$$"):
            t.dim = -1
        i = j + 1
    while i < len(ts) and ts[i] in ("var", "par", "opt", "set", "of", "any"):
        w = ts[i]
        t.var |= w == "var"
        t.opt |= w == "opt"
        t.set |= w == "set"
        t.any |= w == "any"
        i += 1
    rest = ts[i:]
    if not rest:
        t.base = "?"
    elif rest[0] in ("int", "float", "bool", "string", "ann"):
        t.base = rest[0]
    elif rest[0].startswith("$$"):
        t.base = "int"
    elif rest[0].startswith("$"):
        t.base = "$T"
    elif rest[0] in ("tuple", "record"):
        t.base = rest[0]
    elif ".." in rest or "{" == rest[0]:
        t.base = "float" if any("." in x and x != ".." for x in rest) else "int"
    elif len(rest) == 1:
        t.base = "int"  # an enumerated type or a set of integers
    else:
        t.base = "?"
    return t


def param(ts):
    """a parameter TI : name (= default)"""
    p = split(ts, ":")
    head = p[0]
    # annotations use ::, which is a token of its own
    head = split(head, "::")[0]
    return ti(head)


def parse(text, file):
    out = []
    ts = tokens(text)
    for item in split(ts, ";"):
        if not item or item[0] not in ("function", "predicate", "test", "annotation"):
            continue
        kind = item[0]
        eq = split(item, "=")
        body = len(eq) > 1
        head = eq[0]
        try:
            if kind == "function":
                if ":" in head:
                    d, k = 0, None
                    for j, t in enumerate(head):
                        if t in ("(", "[", "{"):
                            d += 1
                        elif t in (")", "]", "}"):
                            d -= 1
                        elif t == ":" and d == 0:
                            k = j
                            break
                    ret = ti(head[1:k])
                    rest = head[k + 1:]
                else:
                    continue
            else:
                ret = Ti()
                ret.base = "ann" if kind == "annotation" else "bool"
                ret.var = kind == "predicate"
                rest = head[1:]
            name = rest[0]
            ps = []
            if len(rest) > 1 and rest[1] == "(":
                d = 0
                for j in range(1, len(rest)):
                    d += rest[j] == "("
                    d -= rest[j] == ")"
                    if d == 0:
                        break
                inner = rest[2:j]
                ps = [param(x) for x in split(inner, ",") if x]
            out.append(Sig(kind, name, ps, ret, body, file))
        except (IndexError, TypeError):
            continue
    return out


def library(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".mzn"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8", errors="replace") as h:
                    out += parse(h.read(), os.path.relpath(p, root))
    return out


def dead_branches(ts):
    """the tokens without the branches of conditionals whose condition is the literal false"""
    out, i = [], 0
    while i < len(ts):
        if ts[i] in ("if", "elseif") and ts[i + 1:i + 3] == ["false", "then"]:
            d, j = 0, i + 3
            while j < len(ts):
                if ts[j] == "if":
                    d += 1
                elif ts[j] == "endif":
                    if d == 0:
                        break
                    d -= 1
                elif ts[j] in ("else", "elseif") and d == 0:
                    break
                j += 1
            if ts[i] == "if":
                out += ["if", "false", "then"]
            i = j
            continue
        out.append(ts[i])
        i += 1
    return out


def uses(root):
    """names called in the bodies of a library, with the first file that does"""
    out = {}
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith(".mzn"):
                continue
            with open(os.path.join(d, f), encoding="utf-8", errors="replace") as h:
                ts = dead_branches(tokens(h.read()))
            for i in range(len(ts) - 1):
                if ts[i + 1] == "(" and re.match(r"[A-Za-z_]\w*$", ts[i]) and \
                        (i == 0 or ts[i - 1] not in ("predicate", "test", "annotation", ":")):
                    out.setdefault(ts[i], os.path.join(os.path.basename(d), f))
                elif ts[i] == ":" and ts[i + 2:i + 3] == ["("] and not declares(ts, i):
                    out.setdefault(ts[i + 1], os.path.join(os.path.basename(d), f))
    return out


def declares(ts, i):
    """the colon at i separates the result type of a function from its name"""
    j, d = i - 1, 0
    while j >= 0 and ts[j] != ";":
        if ts[j] in (")", "]", "}"):
            d += 1
        elif ts[j] in ("(", "[", "{"):
            d -= 1
            if d < 0:
                return False
        elif ts[j] == "function" and d == 0:
            return True
        elif ts[j] == "=" and d == 0:
            return False
        j -= 1
    return False


class Lib(object):
    """the files of a library path (solver library first, then the standard library), with the includes resolved"""

    def __init__(self, share, lib):
        self.dirs = [os.path.join(share, d) for d in ((lib, "std") if lib != "std" else ("std",))]
        self.share = share
        self.files = {}
        self.missing = set()
        self.builtin = self.closure(["stdlib.mzn", "solver_redefinitions.mzn"])

    def find(self, name):
        for d in self.dirs:
            p = os.path.join(d, name)
            if os.path.exists(p):
                return p

    def load(self, p):
        if p not in self.files:
            with open(p, encoding="utf-8", errors="replace") as h:
                text = h.read()
            ts = tokens(text)
            inc = [ts[i + 1][1:-1] for i in range(len(ts) - 1) if ts[i] == "include" and ts[i + 1].startswith('"')]
            calls = set()
            tl = dead_branches(ts)
            for i in range(1, len(tl) - 1):
                if tl[i + 1] == "(" and re.match(r"[A-Za-z_]\w*$", tl[i]) and tl[i] not in KEYWORDS and \
                        tl[i - 1] not in ("predicate", "test", "annotation"):
                    calls.add(tl[i])
            self.files[p] = (inc, set(s.name for s in parse(text, p)), calls)
        return self.files[p]

    def closure(self, names):
        seen, todo = set(), [(n, None) for n in names]
        while todo:
            n, by = todo.pop()
            p = self.find(n)
            if p is None:
                self.missing.add((by, n))
                continue
            if p not in seen:
                seen.add(p)
                todo += [(m, p) for m in self.load(p)[0]]
        return seen

    def public(self):
        """files a model may include"""
        out = set()
        for d in self.dirs:
            for f in os.listdir(d):
                if f.endswith(".mzn") and not f.startswith(("fzn_", "redef")) and ".deprecated" not in f:
                    out.add(f)
        return sorted(out)


KEYWORDS = set("""if then else elseif endif in where not diff div mod intersect union superset subset output constraint default let of
tuple record include solve satisfy minimize maximize array list xor symdiff var set opt any par case annotation function predicate
test type enum""".split())
