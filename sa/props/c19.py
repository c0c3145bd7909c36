"""C19: orderings are irreflexive, asymmetric and transitive; relational operators of one type agree."""
import re

from ..ordeval import OrdEval, GiveUp, PV, Thrown

EXPLANATION = (
    "Every ordering of the program (operator<, <=, >, >=, ==, != of a class, function objects and lambdas handed to sorting "
    "and searching algorithms or used as container comparators, and three-way comparison functions) is interpreted over "
    "abstract operands: each scalar component reachable through fields, accessors and table look-ups is chosen lazily from a "
    "small domain that contains every constant it is compared with; kinds, null pointers and strings likewise. For three "
    "abstract objects the laws are decided over all choices: irreflexive, asymmetric, transitive, transitive incomparability "
    "(equality: reflexive, symmetric, transitive; three-way: sign antisymmetric and transitive), and for each class all its "
    "relational operators must describe one total preorder.")

SORTS = {"sort": 2, "stable_sort": 2, "partial_sort": 3, "nth_element": 3, "lower_bound": 3, "upper_bound": 3, "equal_range": 3,
         "binary_search": 3, "max_element": 2, "min_element": 2, "merge": 5, "set_intersection": 5, "set_union": 5,
         "set_difference": 5, "includes": 4, "inplace_merge": 3, "push_heap": 2, "pop_heap": 2, "make_heap": 2, "is_sorted": 2,
         "sort_heap": 2, "minmax_element": 2, "max": 2, "min": 2}

OPS = ("<", "<=", ">", ">=", "==", "!=")

# value classes with a representation invariant: the combinations of components that occur
INVARIANT = {
    "IntVal": ({"@._infinity": [False, True], "@._v": [-2, -1, 1, 2]},
               lambda a: not a.get("@._infinity") or a.get("@._v", 1) in (-1, 1)),
    "FloatVal": ({"@._infinity": [False, True], "@._v": [-2.5, -1.0, 1.0, 2.5]},
                 lambda a: not a.get("@._infinity") or a.get("@._v", 1) in (-1, 1)),
}


class Bad(Exception):
    pass


def norm_t(t):
    return re.sub(r"\bconst\b|&|\bstruct\b|\bclass\b", "", t or "").replace(" ", "")


def same_params(f):
    ps = f.params
    if f.cls and not f.static and f.q.split("::")[-1] != "operator()" and len(ps) == 1:
        return norm_t(ps[0][1]) == norm_t(f.cls) or norm_t(ps[0][1]).split("::")[-1] == norm_t(f.cls).split("::")[-1]
    return len(ps) == 2 and norm_t(ps[0][1]) == norm_t(ps[1][1])


def inrepo(f):
    return f.file and not f.file.startswith("/") and f.cfg is not None


def comparators(ctx):
    """{kind: [(fn, name)]}: orders (bool), three-way, operators per class"""
    prog = ctx.prog
    functors, lambdas, ops, three = {}, {}, {}, {}
    for f in prog.F.values():
        if not inrepo(f):
            continue
        n = f.q.split("::")[-1]
        m = re.match(r"operator(<|>|<=|>=|==|!=)$", n)
        if m and same_params(f) and f.ret == "bool":
            cls = f.cls if f.cls and not f.static and len(f.params) == 1 else f.params[0][1]
            cls = re.sub(r"\bconst\b|&", "", cls or "").strip()
            ops.setdefault(cls, {})[m.group(1)] = f
        elif n == "operator()" and "(anonymous class)" not in f.q and "(lambda" not in f.q and f.ret in ("bool", "int") and same_params(f):
            functors[f.key] = f
        elif re.match(r"(?i)(cmp|compare)", n) and f.ret == "int" and same_two(f):
            three[f.key] = f
    for f in prog.F.values():
        if not inrepo(f):
            continue
        for c in f.calls():
            if c.k != "call" or not (c.cq or "").startswith("std::") or c.mname not in SORTS:
                continue
            ctx.count("uses of ordering algorithms") if c.mname not in ("min", "max") else None
            for a in c.args():
                for x in a.walk():
                    if x.k == "lambda":
                        g = prog.F.get(x.x[0])
                        if g is not None and g.cfg is not None and len(g.params) == 2 and g.ret == "bool":
                            lambdas[g.key] = g
                    elif x.k == "ref" and x.x[0] in ("v", "s"):
                        for d in f.nodes:
                            if d.k == "var" and d.x[1] == x.x[2] and d.c:
                                for y in d.c[0].walk():
                                    if y.k == "lambda":
                                        g = prog.F.get(y.x[0])
                                        if g is not None and g.cfg is not None and len(g.params) == 2 and g.ret == "bool":
                                            lambdas[g.key] = g
                    elif x.k == "ref" and x.x[0] in ("f", "g"):
                        for q in x.x[1:]:
                            if isinstance(q, str):
                                for g in prog.fq(q) or ():
                                    if g.cfg is not None and len(g.params) == 2 and g.ret == "bool" and same_params(g):
                                        lambdas[g.key] = g
    return functors, lambdas, ops, three


def same_two(f):
    ps = [p for p in f.params if "EnvI" not in (p[1] or "")]
    if f.cls and not f.static:
        return len(ps) == 1 and norm_t(ps[0][1]).split("::")[-1] == norm_t(f.cls).split("::")[-1]
    return len(ps) == 2 and norm_t(ps[0][1]) == norm_t(ps[1][1])


class Judge(object):
    """laws of one comparison over abstract objects"""

    look = True
    modular = ()

    def __init__(self, ctx, fn, deep=False):
        self.ctx, self.fn = ctx, fn
        strings = None
        chars = any(n.mname in ("tolower", "toupper", "isalpha", "isdigit") for n in fn.calls()) or any(
            p[1] and "basic_string" in p[1] and "pair" not in p[1] for p in fn.params) or self.deepchars(fn)
        if chars:
            strings = ["", "_", "Z", "a", "aZ", "z"]
        elif fn.cls and fn.cls.endswith("ASTString") or any(norm_t(p[1]).endswith("ASTString") for p in fn.params):
            strings = ["", "a", "ab", "b", "ba"]
        self.ev = OrdEval(ctx.prog, strings, look=Judge.look, modular=Judge.modular)
        self.ev.root = fn
        self.deep = deep

    def deepchars(self, fn):
        for n in fn.calls():
            for t in self.ctx.prog.targets(n):
                if t.cfg is not None and inrepo(t) and t is not fn and any(
                        x.mname in ("tolower", "toupper", "isalpha") for x in t.calls()):
                    return True
        return False

    def obj(self, i, t):
        t = re.sub(r"\bconst\b|&", "", t or "").strip()
        return PV(i, "@", t)

    def run(self, f, i, j):
        ev = self.ev
        ps = f.params
        tys = [p[1] for p in ps]
        if f.cls and not f.static and f.q.split("::")[-1] != "operator()" and len([p for p in ps if "EnvI" not in p[1]]) == 1:
            a, args = self.obj(i, f.cls), []
            for p in ps:
                args.append(PV(None, "env", p[1]) if "EnvI" in p[1] else self.obj(j, p[1]))
            return ev.conc(ev.call(f, args, a))
        args, todo = [], [i, j]
        for p in ps:
            if "EnvI" in p[1]:
                args.append(PV(None, "env", p[1]))
            else:
                args.append(self.obj(todo.pop(0), p[1]))
        # objects passed by value that are strings are values themselves
        return ev.conc(ev.call(f, args, None))

    def settle(self, prog):
        """repeat until no new constants are discovered"""
        for _ in range(60):
            self.ev.grown = False
            try:
                n = 0
                for _r in self.ev.explore(prog):
                    n += 1
                    if self.ev.grown:
                        break
            except GiveUp:
                if not self.ev.grown:
                    raise
            if not self.ev.grown:
                return
        raise GiveUp("domains do not settle")

    def cases(self, prog):
        self.settle(prog)
        for r in self.ev.explore(prog):
            yield r

    def allowed(self, inv):
        if inv is None:
            return True
        per = {}
        for (o, s), v in self.ev.assign.items():
            per.setdefault(o, {})[s] = v
        return all(inv(per[o]) for o in per if o is not None)

    def describe(self):
        per = {}
        for (o, s), v in sorted(self.ev.assign.items(), key=str):
            per.setdefault(o, []).append("%s=%s" % (s.replace("@", "x"), v))
        return "; ".join("%s: %s" % ("abc"[o] if o is not None else "shared", ", ".join(per[o])) for o in per)[:300]


def judge_bool(ctx, fn, inv=None, kind=None, deep=False):
    """-> (number of cases, message or None)"""
    j = Judge(ctx, fn, deep)
    if inv:
        j.ev.fixed.update(inv[0])
        ok = inv[1]
    else:
        ok = None
    n = 0
    refl = set()
    for r in j.cases(lambda: j.run(fn, 0, 0)):
        if j.allowed(ok) and r is not None:
            refl.add(bool(r))
            n += 1
    if not refl:
        raise GiveUp("no result")
    if len(refl) == 2:
        return n, "is true for some and false for other objects compared with themselves"
    eq = refl.pop()
    lq = False
    if kind in ("<", ">", "!=") and eq:
        return n, "an object is %s itself" % kind
    if kind in ("<=", ">=", "==") and not eq:
        return n, "an object is not %s itself" % kind
    if kind == "!=":
        for r in j.cases(lambda: (j.run(fn, 0, 1), j.run(fn, 1, 0))):
            n += 1
            if r is not None and j.allowed(ok) and bool(r[0]) != bool(r[1]):
                return n, "is not symmetric (%s)" % j.describe()
        return n, None
    lq = kind in ("<=", ">=")
    if not eq:
        def asym():
            return j.run(fn, 0, 1) and j.run(fn, 1, 0)
        for r in j.cases(asym):
            n += 1
            if r and j.allowed(ok):
                return n, "both a<b and b<a hold (%s)" % j.describe()
    elif not lq:
        def sym():
            return (bool(j.run(fn, 0, 1)), bool(j.run(fn, 1, 0)))
        for r in j.cases(sym):
            n += 1
            if r is not None and r[0] != r[1] and j.allowed(ok):
                return n, "is not symmetric (%s)" % j.describe()

    def trans():
        if not j.run(fn, 0, 1) or not j.run(fn, 1, 2):
            return None
        return j.run(fn, 0, 2)
    for r in j.cases(trans):
        n += 1
        if r is not None and not r and j.allowed(ok):
            return n, "a,b and b,c are in relation but a,c are not (%s)" % j.describe()
    if not eq:
        def incomp():
            if j.run(fn, 0, 1) or j.run(fn, 1, 0) or j.run(fn, 1, 2) or j.run(fn, 2, 1):
                return None
            return not (j.run(fn, 0, 2) or j.run(fn, 2, 0))
        for r in j.cases(incomp):
            n += 1
            if r is not None and not r and j.allowed(ok):
                return n, "a,b and b,c are equivalent but a,c are not (%s)" % j.describe()
    return n, None


def judge_three(ctx, fn):
    j = Judge(ctx, fn, False)

    def sg(x):
        return 0 if x == 0 else (-1 if x < 0 else 1)
    n = 0
    for r in j.cases(lambda: j.run(fn, 0, 0)):
        n += 1
        if r:
            return n, "an object differs from itself (%s)" % j.describe()
    for r in j.cases(lambda: (j.run(fn, 0, 1), j.run(fn, 1, 0))):
        n += 1
        if r is not None and sg(r[0]) != -sg(r[1]):
            return n, "compare(a,b)=%s but compare(b,a)=%s (%s)" % (r[0], r[1], j.describe())

    def trans():
        x = j.run(fn, 0, 1)
        if x > 0:
            return None
        y = j.run(fn, 1, 2)
        if y > 0:
            return None
        z = j.run(fn, 0, 2)
        if x == 0 and y == 0:
            return z == 0
        return z < 0
    for r in j.cases(trans):
        n += 1
        if r is False:
            return n, "a<=b<=c but not a<=c (%s)" % j.describe()
    return n, None


def judge_group(ctx, cls, ops, inv):
    """all relational operators of one class describe the same total preorder"""
    fn = next(iter(ops.values()))
    j = Judge(ctx, fn, False)
    j.ev.root = None
    ok = None
    if inv:
        j.ev.fixed.update(inv[0])
        ok = inv[1]
    names = [o for o in OPS if o in ops]
    n = 0

    def one():
        return dict((o, (bool(j.run(ops[o], 0, 1)), bool(j.run(ops[o], 1, 0)))) for o in names)
    for r in j.cases(one):
        n += 1
        if r is None or not j.allowed(ok):
            continue
        for x, y in (("<", ">"), ("<=", ">=")):
            if x in r and y in r and r[x][0] != r[y][1]:
                return n, "a %s b differs from b %s a (%s)" % (x, y, j.describe())
        if "==" in r and "!=" in r and r["=="][0] == r["!="][0]:
            return n, "== and != agree (%s)" % j.describe()
        for x, y in (("<", ">="), (">", "<=")):
            if x in r and y in r and r[x][0] == r[y][0]:
                return n, "%s and %s agree (%s)" % (x, y, j.describe())
        if "<" in r and "<=" in r and r["<="][0] == r["<"][1]:
            return n, "a<=b and b<a agree (%s)" % j.describe()
        for lt in ("<", ">"):
            if lt in r and "==" in r:
                c = int(r[lt][0]) + int(r[lt][1]) + int(r["=="][0])
                if c != 1:
                    return n, "not exactly one of a%sb, b%sa, a==b holds (%s)" % (lt, lt, j.describe())
    return n, None


def check(ctx):
    functors, lambdas, ops, three = comparators(ctx)
    Judge.modular = frozenset(three)

    def judge(f, what, go):
        # first with every accessor as an independent component (an over-approximation); if the laws do not hold there,
        # look into the predicates, then into all accessors
        why = None
        for look in (False, "predicates", True):
            Judge.look = look
            try:
                n, msg = go()
                if msg is None:
                    break
                why = None
            except (GiveUp, RecursionError) as e:
                why = e
        if why is not None:
            ctx.skip("%s: %s %s: %s" % (f.loc(), what, f.q, why))
            return
        ctx.count("cases of component values", n)
        ctx.count(what)
        ctx.check(msg is None, "%s:%s" % (what.replace(" ", "-"), f.q.split("(anonymous class)")[0][:120]), f.loc(),
                  "%s: %s" % (f.q, msg), what="%s %s (%d cases)" % (what, f.q[:80], n))
    for f in sorted(functors.values(), key=lambda f: f.q):
        judge(f, "comparison objects", lambda: judge_bool(ctx, f))
    for f in sorted(lambdas.values(), key=lambda f: (f.q, f.line if hasattr(f, "line") else 0)):
        judge(f, "comparison lambdas", lambda: judge_bool(ctx, f))
    for f in sorted(three.values(), key=lambda f: f.q):
        judge(f, "three-way comparisons", lambda: judge_three(ctx, f))
    for cls in sorted(ops):
        if "Iter" in cls:
            continue    # positions in a container, not an ordering of values
        inv = INVARIANT.get(cls.split("::")[-1])
        for o in OPS:
            if o in ops[cls]:
                f = ops[cls][o]
                judge(f, "relational operators", lambda: judge_bool(ctx, f, inv, o))
        if len(ops[cls]) > 1:
            f = next(iter(ops[cls].values()))
            judge(f, "operator groups", lambda: judge_group(ctx, cls, ops[cls], inv))
    ctx.need("uses of ordering algorithms", 15)
    ctx.need("comparison objects", 6)
    ctx.need("relational operators", 20)
