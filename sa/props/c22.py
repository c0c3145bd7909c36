"""C22: every conversion of text to a number is tested for success and completeness before the number is used."""
import os
import re
try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre

from ..facts import REPO, AnalysisError, last_name
from ..flow import strip, in_repo, local_defs
from ..lexspec import Spec
from .. import numconv

EXPLANATION = (
    "Every call in the program that converts text to a number (std::sto*, strto*, ato*, scanf, extraction of a number from an "
    "input stream) is an obligation: on every control-flow path from the conversion to a read of the number, to its return, or to "
    "reporting success for an output parameter, conditions have established that the conversion succeeded (or it throws), that "
    "the whole text was consumed and, for strto*, that the value is in range. Completeness is not required where the text can "
    "only be digits: it is the text of a lexer token whose pattern, read from the flex specification, admits only digits of the "
    "base, or a group of a regular expression, or the number only raises the counter of introduced identifiers. Digit loops "
    "(v*10 + (c-'0')) must accumulate into the overflow-checked integer type, and the calls of the lexer's conversion functions "
    "must test the reported success. Numbers read from JSON or the lexer are kept in 64 bit or double until stored: a parsed "
    "number is not narrowed by a cast without a range test.")

FLEX = {"lexer.yy.cpp": "lib/lexer.lxx", "regex_lexer.yy.cpp": "lib/support/regex/lexer.lxx"}
DIGITS = {8: set("01234567"), 10: set("0123456789"), 16: set("0123456789abcdefABCDEF")}


def chars_after(rx, skip):
    """characters the language of a regex may contain after the first `skip` characters, or None"""
    try:
        items = list(sre.parse(rx))
    except Exception:
        return None
    out = set()

    def cls(av):
        s = set()
        for op, a in av:
            op = str(op)
            if op == "LITERAL":
                s.add(chr(a))
            elif op == "RANGE":
                s |= {chr(c) for c in range(a[0], a[1] + 1)}
            else:
                return None
        return s

    flat = []

    def go(its):
        for op, av in its:
            op = str(op)
            if op == "LITERAL":
                flat.append((1, 1, {chr(av)}))
            elif op == "IN":
                flat.append((1, 1, cls(av)))
            elif op in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, sub = av
                sub = list(sub)
                if len(sub) != 1 or str(sub[0][0]) not in ("IN", "LITERAL"):
                    flat.append((0, 99, None))
                    continue
                c = cls(sub[0][1]) if str(sub[0][0]) == "IN" else {chr(sub[0][1])}
                flat.append((lo, hi, c))
            elif op == "SUBPATTERN":
                go(list(av[-1]))
            else:
                flat.append((0, 99, None))
    go(items)
    left = skip
    for lo, hi, c in flat:
        if left > 0:
            if lo != hi or lo > left:
                return None
            left -= lo
            continue
        if c is None:
            return None
        out |= c
    return out


_spec = {}


def spec(path):
    if path not in _spec:
        p = os.path.join(REPO, path)
        _spec[path] = Spec(p) if os.path.exists(p) else None
    return _spec[path]


def base_of(fn):
    b = 10
    for x in fn.walk():
        if x.k == "ref" and x.x[0] == "f" and str(x.x[2] if len(x.x) > 2 else "").startswith("std::hex"):
            b = 16
        if x.k == "ref" and x.x[0] == "f" and str(x.x[2] if len(x.x) > 2 else "").startswith("std::oct"):
            b = 8
    return b


def lexer_fn(f):
    return f.name.endswith("yylex")


def certified(ctx, fn, n):
    """(certified, reason) the text of conversion n can only consist of digits"""
    prog = ctx.prog
    base = os.path.basename(fn.file)
    if base in FLEX and lexer_fn(fn):
        sp = spec(FLEX[base])
        if sp is None:
            return False, None
        rules = [r for r in sp.rules if re.search(r"\b%s\s*\(" % re.escape(n.mname or ""), r.action or "")]
        return digits_only(rules, n.mname, 10)
    if base in FLEX:
        callers = [c for c in prog.callers.get(fn.key, ())]
        callers = [prog.F[c] if isinstance(c, str) else c for c in callers]
        if callers and all(lexer_fn(c) for c in callers):
            sp = spec(FLEX[base])
            if sp is None:
                return False, None
            rules = [r for r in sp.rules if re.search(r"\b%s\s*\(" % re.escape(fn.name), r.action or "")]
            return digits_only(rules, fn.name, base_of(fn))
    # a group of a regular expression
    a = strip(n.args()[0]) if n.args() else None
    if a is not None and a.k == "ref" and a.x[0] == "v":
        for d in local_defs(fn).get(a.x[2], ()):
            if d is not None and any("regex_token_iterator" in (x.type or "") or "sub_match" in (x.type or "")
                                     for x in d.walk()):
                if any(x.k == "str" and re.search(r"\(\[0-9\][*+]\)|\(\\d[*+]\)", str(x.x[0])) for x in fn.walk()):
                    return True, "regular expression group"
    t = numconv.target(n)
    if t is not None and t[0] == "var":
        # the number only raises the identifier counter
        rd = [x for x in fn.walk() if x.k == "ref" and numconv.key(x) == t[1] and not numconv.is_store(x)]
        uses = []
        for x in rd:
            p = x.p
            while p is not None and p.k in ("icast", "cast", "paren", "("):
                p = p.p
            uses.append(p)
        if uses and all(p is not None and (p.is_call() and p.mname == "minId" or
                                           p.k == "bin" and p.x[0] in ("<", "<=", ">", ">=", "==", "!=")) for p in uses) and \
                any(p.is_call() for p in uses):
            return True, "identifier counter"
    return False, None


def digits_only(rules, name, base):
    if not rules:
        return False, None
    for r in rules:
        m = re.search(r"\b%s\s*\(\s*(?:std::string\()?\s*(?:regex_)?yytext\s*(?:\+\s*(\d+))?" % re.escape(name), r.action)
        if m is None:
            return False, None
        cs = chars_after(r.rx.pattern, int(m.group(1) or 0))
        if cs is None or not cs <= DIGITS[base]:
            return False, None
    return True, "token pattern"


def check(ctx):
    prog = ctx.prog
    done = set()
    for kind, fn, n in numconv.sites(prog):
        loc = fn.loc(n)
        if kind == "stream" and not text_stream(fn, n):
            # a number in a file read through its stream is judged the same way, without completeness
            cert, why = True, "stream of values"
        else:
            cert, why = certified(ctx, fn, n)
        ok, msg = numconv.analyse(prog, kind, fn, n, certified=cert)
        ctx.count("conversions of text to a number")
        if ok is None:
            ctx.skip("%s %s: %s" % (loc, fn.q, msg))
        else:
            ctx.check(ok, "conversion:%s:%s" % (fn.name, kind), loc,
                      "%s converts text to a number: %s" % (fn.q, msg), "%s %s%s" % (loc, fn.name, " (%s)" % why if cert else ""))
    ctx.need("conversions of text to a number", 10)
    digit_loops(ctx)
    helper_results(ctx)
    narrowing(ctx)
    unsigned_signs(ctx)


def text_stream(fn, n):
    """the stream is over a text (string stream), not a file"""
    b = strip(n.c[0])
    while b is not None and b.is_call() and b.c:
        b = strip(b.c[0])
    return b is None or "ifstream" not in (b.type or "") and "fstream" not in (b.type or "")


def digit_loops(ctx):
    """v = v*10 + (c - '0') with a machine integer wraps silently"""
    prog = ctx.prog
    for f in prog.F.values():
        if f.cfg is None or not in_repo(f):
            continue
        for n in f.walk():
            if n.k == "bin" and n.x[0] == "-" and len(n.c) == 2:
                r = strip(n.c[1])
                while r is not None and r.k in ("icast", "cast") and r.c:
                    r = strip(r.c[-1])
                if r is None or r.k != "int" or r.x[0] != 48:
                    continue
                # inside a sum with a multiplication by ten
                p = n.p
                while p is not None and p.k in ("icast", "cast", "paren", "(", "ctor", "temp", "ccast", "scast"):
                    p = p.p
                if p is None:
                    continue
                mult = [x for x in p.walk() if x.k in ("bin", "ocall") and
                        (x.x[0] == "*" if x.k == "bin" else x.mname == "operator*") and
                        any(y.k == "int" and y.x[0] in (8, 10, 16) for y in x.walk())]
                if not mult:
                    continue
                ctx.count("digit loops")
                m = mult[0]
                ctx.check(m.k == "ocall" and "IntVal" in str(m.x[0]), "digit-loop:%s" % f.name, f.loc(n),
                          "%s accumulates digits in a machine integer: a long literal wraps silently" % f.q,
                          "%s digit loop in checked arithmetic" % f.loc(n))


def helper_results(ctx):
    """functions that convert into an output parameter report success: their callers must test it"""
    prog = ctx.prog
    hs = set()
    for kind, fn, n in numconv.sites(prog):
        if (fn.ret or "") == "bool" and any(("&" in p[1]) and numconv.NUM.match(
                p[1].replace("&", "").replace("const ", "").strip()) and "const" not in p[1] for p in fn.params):
            hs.add(fn.key)
    for f in prog.F.values():
        if (f.ret or "") == "bool" and "strto" in f.name and f.cfg is not None and in_repo(f):
            hs.add(f.key)
    for f in prog.F.values():
        if f.cfg is None or not in_repo(f):
            continue
        for n in f.calls():
            ts = [t.key for t in prog.targets(n)]
            if not any(t in hs for t in ts):
                continue
            ctx.count("calls of conversion functions")
            p, ch = n.p, n
            while p is not None and p.k in ("icast", "paren", "(", "un", "temp"):
                ch, p = p, p.p
            used = p is not None and not (p.k == "{" or p.k in ("case", "default", "label") or
                                          p.k == "if" and ch in p.c[3:] or p.k in ("for", "while") and ch is p.c[-1])
            ctx.check(used, "ignored-result:%s" % n.mname, f.loc(n),
                      "%s ignores whether %s could convert the text" % (f.q, n.mname), "%s result of %s tested" % (f.loc(n), n.mname))


SMALL = {"int": 32, "unsigned int": 32, "short": 16, "unsigned short": 16, "char": 8, "unsigned char": 8, "signed char": 8}
WIDE = ("long", "long long", "unsigned long", "unsigned long long", "double", "float")
PARSERS = ("lib/json_parser.cpp", "lexer.yy.cpp", "lib/solver_config.cpp", "lib/param_config.cpp", "lib/utils.cpp",
           "lib/solver.cpp", "lib/solns2out.cpp", "solvers/nl/nl_solreader.cpp")


def narrowing(ctx):
    """values read from text by the readers are not cut down to fewer bits without a range test on the path"""
    from ..flow import mustfacts
    prog = ctx.prog
    for f in prog.F.values():
        if f.cfg is None or f.file not in PARSERS and os.path.basename(f.file) not in FLEX:
            continue
        src = {}
        for n in f.walk():
            if n.k not in ("icast", "cast", "scast", "ccast") or not n.c:
                continue
            to = (n.type or "").replace("const ", "")
            v = strip(n.c[-1])
            while v is not None and v.k in ("icast",) and v.c:
                v = strip(v.c[-1])
            if v is None:
                continue
            fr = (v.type or "").replace("const ", "")
            if to not in SMALL or fr not in WIDE:
                continue
            if not number_read(prog, f, v):
                continue
            if to in ("char", "unsigned char", "signed char"):
                continue      # character codes of escapes, bytes of an encoding
            ctx.count("narrowing conversions of read numbers")
            ctx.check(range_tested(f, n, v), "narrow:%s" % f.name, f.loc(n),
                      "%s cuts a number read from text from %s to %s without testing its range" % (f.q, fr, to),
                      "%s range tested before narrowing" % f.loc(n))


def number_read(prog, f, v):
    """the expression is a number that was read from text"""
    if v.is_call():
        ts = list(prog.targets(v))
        if (v.mname or "").startswith("parse_") or numconv.STO.match(v.cq or ""):
            return True
        if v.mname == "toInt" and v.c:
            return any(x.is_call() and x.mname == "v" for x in v.walk())
        return False
    if v.k == "mem":
        return "Token" in (v.x[1] if len(v.x) > 1 else "") and v.x[0] in ("i", "d")
    if v.k == "ref" and v.x[0] == "v":
        for d in local_defs(f).get(v.x[2], ()):
            d = strip(d)
            if d is not None and d is not v and d.k != "ref" and number_read(prog, f, d):
                return True
        return any(k == "stream" and numconv.key(n.c[-1]) == numconv.key(v)
                   for k, g, n in _sites(prog) if g is f)
    return False


def _sites(prog):
    s = getattr(prog, "_nsites", None)
    if s is None:
        s = prog._nsites = numconv.sites(prog)
    return s


LIMITS = {"int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1),
          "long long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "unsigned long long": (0, 2**64 - 1),
          "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1), "char": (-128, 127),
          "unsigned char": (0, 255), "signed char": (-128, 127)}


def constant(e):
    """value of a constant expression, or None"""
    e = strip(e)
    while e is not None and e.k in ("icast", "cast", "scast", "ccast") and e.c:
        e = strip(e.c[-1])
    if e is None:
        return None
    if e.k == "int":
        try:
            return int(e.x[0])
        except (TypeError, ValueError):
            return None
    if e.k == "un" and e.x[0] in ("-", "+") and e.c:
        v = constant(e.c[0])
        return None if v is None else -v if e.x[0] == "-" else v
    if e.k == "bin" and e.x[0] in ("+", "-", "*"):
        a, b = constant(e.c[0]), constant(e.c[1])
        return None if a is None or b is None else {"+": a + b, "-": a - b, "*": a * b}[e.x[0]]
    if e.is_call():
        m = re.match(r"^std::numeric_limits<([^>]*)>::(max|min|lowest)$", e.cq or "")
        if m and m.group(1) in LIMITS:
            return LIMITS[m.group(1)][1 if m.group(2) == "max" else 0]
    return None


def unsigned_signs(ctx):
    """conversions to unsigned types accept a minus sign and wrap: the text must have been tested for one before"""
    prog = ctx.prog
    for kind, fn, n in _sites(prog):
        if kind not in ("sto", "strto") or not re.search(r"(stou|strtou)", n.cq or ""):
            continue
        cert, why = certified(ctx, fn, n)
        ctx.count("conversions to unsigned numbers")
        if cert:
            ctx.ok("%s (%s)" % (fn.loc(n), why))
            continue
        ctx.check(sign_tested(fn, n), "sign:%s" % fn.name, fn.loc(n),
                  "%s converts text to an unsigned number without excluding a minus sign, which wraps the value around" % fn.q,
                  "%s sign excluded" % fn.loc(n))


def sign_tested(fn, n):
    bl = fn.cfg
    tgt = [b.id for b in bl.values() if n.id in b.elems]
    if not tgt:
        return True
    tgt = tgt[0]
    reach = {}

    def reaches(b):
        if b not in reach:
            seen, st = set(), [b]
            while st:
                x = st.pop()
                if x in seen or x < 0:
                    continue
                seen.add(x)
                st.extend(bl[x].succs)
            reach[b] = tgt in seen
        return reach[b]
    # blocks that decide on a comparison with '-' (or with zero, or digits only) and can leave before the conversion
    deciders = set()
    for b in bl.values():
        if len([s for s in b.succs if s >= 0]) < 2:
            continue
        ec = edge_cond_of(fn, b)
        if ec is None:
            continue
        c = ec
        if not any(excludes_minus(x) for x in c.walk()):
            continue
        if any(s >= 0 and not reaches(s) for s in b.succs):
            deciders.add(b.id)
    # every path passes a decider, or one operand of its short-circuit chain was already false
    heads = set()
    for d in deciders:
        heads |= chain(fn, d)
    seen, st = set(), [fn.entry]
    while st:
        x = st.pop()
        if x in seen or x < 0:
            continue
        seen.add(x)
        if x == tgt and x not in heads:
            return False
        if x in heads:
            continue
        st.extend(bl[x].succs)
    return True


def excludes_minus(x):
    if x.k == "int" and str(x.x[0]) == "45":
        p = x.p
        while p is not None and p.k in ("icast", "paren", "(", "cast", "scast"):
            p = p.p
        return p is not None and (p.k == "bin" and p.x[0] in ("==", "!=") or p.is_call())
    if x.is_call():
        m = x.mname or ""
        if m in ("isdigit", "all_of"):
            return True
        lits = [str(y.x[0]) for y in x.walk() if y.k == "str"]
        if m == "find_first_not_of":
            return any("0123456789" in t and "-" not in t for t in lits)
        if m in ("find", "find_first_of", "compare", "operator==", "rfind", "strchr"):
            return any("-" in t for t in lits)
    return False


def edge_cond_of(fn, b):
    from ..must import edge_cond
    for i, s in enumerate(b.succs):
        if s >= 0:
            ec = edge_cond(fn, b, i)
            if ec is not None:
                return ec[0]
    return None


def chain(fn, d):
    """the blocks evaluating the earlier operands of the short-circuit condition that block d ends"""
    out = {d}
    todo = [d]
    while todo:
        x = todo.pop()
        c = edge_cond_of(fn, fn.cfg[x])
        if c is None:
            continue
        p = c
        while p.p is not None and (p.p.k in ("icast", "paren", "(") or p.p.k == "un" and p.p.x[0] == "!"):
            p = p.p
        if p.p is not None and p.p.k == "bin" and p.p.x[0] in ("&&", "||") and p.p.c[1] is p:
            first = list(p.p.c[0].walk())
            ids = {y.id for y in first}
            for b in fn.cfg.values():
                if b.id not in out and any((not isinstance(e, list)) and e in ids for e in b.elems) and d in b.succs:
                    out.add(b.id)
                    todo.append(b.id)
    return out


def range_tested(f, n, v):
    """comparisons of the same value with limits dominate the cast"""
    lim = LIMITS.get((n.type or "").replace("const ", ""))
    from ..must import edge_cond
    vk = numconv.key(v)
    bl = f.cfg
    tgt = None
    for b in bl.values():
        if n.id in b.elems:
            tgt = b.id
    if tgt is None:
        return True

    def bounds(cond, truth):
        out = set()
        c, neg = numconv.polarity(cond)
        if c is None or c.k != "bin":
            return out
        t = truth != neg
        if c.x[0] in ("&&", "||"):
            if (c.x[0] == "&&") == t:
                return bounds(c.c[0], t) | bounds(c.c[1], t)
            return bounds(c.c[0], t) & bounds(c.c[1], t)
        op = c.x[0]
        if op not in ("<", "<=", ">", ">=", "=="):
            return out
        l, r = c.c[0], c.c[1]
        other = r
        if not any(numconv.key(x) == vk for x in l.walk()):
            if not any(numconv.key(x) == vk for x in r.walk()):
                return out
            other = l
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "=="}[op]
        if not t:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!="}[op]
        k = constant(other)
        if k is None or lim is None:
            k = None
        if op in ("<", "<=", "==") and (k is None or (k - 1 if op == "<" else k) <= lim[1]):
            out.add("hi")
        if op in (">", ">=", "==") and (k is None or (k + 1 if op == ">" else k) >= lim[0]):
            out.add("lo")
        return out
    need = {"hi"} if "unsigned" in (v.type or "") else {"lo", "hi"}
    for b in ([v.is_call()] and need):
        # every path from the entry to the cast passes an edge establishing this bound
        seen, st = set(), [f.entry]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == tgt:
                return False
            for i, s in enumerate(bl[x].succs):
                if s < 0:
                    continue
                ec = edge_cond(f, bl[x], i)
                if ec is not None and b in bounds(ec[0], ec[1]):
                    continue
                st.append(s)
    return True
