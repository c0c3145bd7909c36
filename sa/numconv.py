"""Text-to-number conversions: is completeness and failure established on every path before the number is used?"""
import re

from .flow import strip, canon, in_repo, local_defs
from .must import edge_cond
from .facts import last_name

STO = re.compile(r"^(std::)?(__cxx11::)?sto(i|l|ll|ul|ull|f|d|ld)$")
STRTO = re.compile(r"^(std::)?(strto|_strto|wcsto)\w+$")
NEVER = re.compile(r"^(std::)?(ato(i|l|ll|f)|v?s?n?scanf|fscanf)$")
NUM = re.compile(r"^(unsigned |signed )?(int|long|long long|short|float|double|long double|long int|long long int)( int)?$|"
                 r"^(unsigned|bool|std::size_t|size_t)$")
COMPLETE = ("eof", "peek", "in_avail", "tellg", "get")
GOODM = ("operator bool", "good")
BADM = ("fail", "bad", "operator!")


def sites(prog):
    out = []
    for f in prog.F.values():
        if f.cfg is None or not in_repo(f):
            continue
        for n in f.walk():
            if not n.is_call():
                continue
            q = n.cq or ""
            if STO.match(q):
                out.append(("sto", f, n))
            elif STRTO.match(q):
                out.append(("strto", f, n))
            elif NEVER.match(q):
                out.append(("never", f, n))
            elif n.k in ("ocall", "mcall") and n.mname == "operator>>" and "istream" in q:
                a = strip(n.c[-1])
                if a is not None and NUM.match((a.type or "").replace("const ", "").replace("&", "").strip()):
                    out.append(("stream", f, n))
    return out


def target(n):
    """the variable the converted number goes to: ('var', canon) / ('ret',) / None"""
    p, ch = n.p, n
    while p is not None:
        if p.k in ("icast", "cast", "scast", "(", "paren", "ccast", "ctor", "temp", "bind", "mat"):
            ch, p = p, p.p
            continue
        if p.k == "var":
            return ("var", "v%d" % p.x[1], p.x[0])
        if p.k == "bin" and p.x[0] == "=" and p.c[1] is ch:
            return ("var", key(p.c[0]), None)
        if p.k == "return":
            return ("ret",)
        return None
    return None


def refs(n, name_or_canon, fn):
    """reads of the variable inside n"""
    out = []
    for x in n.walk():
        if x.k in ("ref", "mem"):
            if x.k == "ref" and x.x[0] == "v" and "v%s" % x.x[2] == name_or_canon:
                out.append(x)
            elif canon(x) == name_or_canon:
                out.append(x)
    return out


def is_store(x):
    p = x.p
    ch = x
    while p is not None and p.k in ("icast", "paren", "(") and len(p.c) == 1:
        ch, p = p, p.p
    if p is None:
        return False
    if p.k == "bin" and p.x[0] == "=" and p.c[0] is ch:
        return True
    if p.k == "un" and p.x[0] == "&":
        return True
    return False


def key(v):
    v = strip(v)
    if v is None:
        return None
    if v.k == "ref" and v.x[0] == "v":
        return "v%s" % v.x[2]
    return canon(v)


def polarity(cond):
    """(leaf, negated): strips ! and operator!"""
    neg = False
    n = strip(cond)
    while n is not None:
        if n.k == "un" and n.x[0] == "!":
            neg = not neg
            n = strip(n.c[0])
        elif n.k in ("ocall", "mcall") and n.mname == "operator!":
            neg = not neg
            n = strip(n.c[0])
        elif n.k == "mcall" and (n.mname or "").startswith("operator bool"):
            n = strip(n.c[0])
        elif n.k in ("icast", "cast", "scast") and n.c:
            n = strip(n.c[-1])
        else:
            break
    return n, neg


def stream_root(n):
    n = strip(n)
    while n is not None:
        if n.k in ("ocall", "mcall") and n.mname in ("operator>>",) and n.c:
            n = strip(n.c[0])
        elif n.k == "call" and n.mname in ("ws", "getline") and n.args():
            n = strip(n.args()[0])
        elif n.k == "mcall" and n.c:
            n = strip(n.c[0])
        elif n.k in ("icast", "cast", "scast") and n.c:
            n = strip(n.c[-1])
        else:
            break
    return key(n)


def analyse(prog, kind, fn, n, certified=False):
    """(ok, why): every read of the number happens with failure and completeness excluded"""
    if kind == "never":
        return False, "the conversion reports neither rubbish nor overflow"
    if kind == "sto":
        a = n.args()
        pos = a[1] if len(a) > 1 and a[1].k != "darg" else None
        p = strip(pos) if pos is not None else None
        if certified:
            return True, ""
        if p is None or p.k != "un" or p.x[0] != "&":
            return False, "characters after the number are ignored"
        pk, sk = key(p.c[0]), key(a[0])
        if sk is None:
            return False, "the text is not kept to compare its length"

        def facts(cond, truth):
            c, neg = polarity(cond)
            if c is None or c.k != "bin" or c.x[0] not in ("==", "!=", "<", ">", "<=", ">="):
                return ()
            l, r = strip(c.c[0]), strip(c.c[1])
            op = c.x[0]

            def islen(y):
                while y is not None and y.k in ("icast", "cast", "scast") and y.c:
                    y = strip(y.c[-1])
                return y is not None and y.k == "mcall" and y.mname in ("size", "length") and key(y.c[0]) == sk

            def ispos(y):
                while y is not None and y.k in ("icast", "cast", "scast") and y.c:
                    y = strip(y.c[-1])
                return key(y) == pk
            if ispos(r) and islen(l):
                l, r = r, l
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if not (ispos(l) and islen(r)):
                # std::string::npos style or text[pos] == 0
                return ()
            t = truth != neg
            if not t:
                op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
            if op in ("==", ">="):
                return ("comp",)
            if op in ("!=", "<", "<=", ">"):
                return ("bad",) if op in ("!=", "<") else ()
            return ()
        tgt = target(n)
        if tgt is None or tgt[0] == "ret":
            return False, "the number is used before its completeness is tested"
        return flow(fn, n, tgt[1], facts, set() if certified else {"comp"})
    if kind == "strto":
        a = n.args()
        e = strip(a[1]) if len(a) > 1 else None
        if e is None or e.k != "un" or e.x[0] != "&":
            return False, "characters after the number are ignored"
        ek = key(e.c[0])
        tgt = target(n)
        if tgt is None or tgt[0] == "ret":
            return False, "the number is used before its completeness is tested"
        vk = tgt[1]

        def facts(cond, truth):
            c, neg = polarity(cond)
            if c is None:
                return ()
            t = truth != neg
            txt = [x for x in c.walk()]
            out = []
            if c.is_call() and (c.mname or "") in ("isfinite",) and any(key(x) == vk for x in txt):
                return ("range",) if t else ("bad",)
            if c.is_call() and (c.mname or "") in ("isinf", "isnan") and any(key(x) == vk for x in txt):
                return ("bad",) if t else ("range",)
            d = None
            if c.k == "un" and c.x[0] == "*":
                d = "!="
                l = c
            elif c.k == "bin" and c.x[0] in ("==", "!="):
                d = c.x[0]
                l = c
            if d is None:
                return ()
            if not t:
                d = {"==": "!=", "!=": "=="}[d]
            derefs = [x for x in l.walk() if x.k in ("un", "idx") and x.x and x.x[0] in ("*", 0) and
                      x.c and key(x.c[0]) == ek]
            if derefs:
                return ("comp",) if d == "==" else ("bad",)
            if any(x.is_call() and "errno" in (x.cq or "") for x in l.walk()) or "errno" in str(canon(l)):
                if any("ERANGE" in str(x.x) for x in l.walk()) or any(x.k == "int" and x.x[0] == 34 for x in l.walk()):
                    return ("range",) if d == "!=" else ()
                if any(x.k == "int" and x.x[0] == 0 for x in l.walk()) and d == "==":
                    return ("range",)
                return ()
            if any(key(x) == ek for x in l.walk()):
                return ("nonempty",) if d == "!=" else ("bad",)
            return ()
        return flow(fn, n, vk, facts, {"range"} if certified else {"comp", "range"})
    if kind == "stream":
        vk = key(n.c[-1])
        s = stream_root(n.c[0])
        if vk is None or s is None:
            return None, "stream or variable not recognised"

        def facts(cond, truth):
            c, neg = polarity(cond)
            if c is None:
                return ()
            t = truth != neg
            m = None
            b = c
            if b.k == "bin" and b.x[0] in ("==", "!="):
                # peek() == EOF
                for q in b.c:
                    q = strip(q)
                    if q is not None and q.k == "mcall" and q.mname in COMPLETE and stream_root(q) == s:
                        eq = (b.x[0] == "==") == t
                        return ("comp",) if eq else ("bad",)
                return ()
            if b.is_call() and b.mname == "operator>>" and stream_root(b) == s:
                # the extraction itself used as condition (or a further one)
                if strip(b.c[-1]) is not None and key(b.c[-1]) == vk:
                    return ("fail",) if t else ("bad",)
                return ("comp",) if not t else ("bad",)
            if b.k == "mcall" and stream_root(b) == s:
                m = b.mname
                if m in ("eof",):
                    return ("comp",) if t else ("bad",)
                if m in ("fail", "bad"):
                    return ("bad",) if t else ("fail",)
                if m == "good":
                    return ("fail",) if t else ()
                if m in ("get", "peek"):
                    return ("comp",) if not t else ("bad",)
            if key(b) == s:
                return ("fail",) if t else ("bad",)
            return ()
        return flow(fn, n, vk, facts, {"fail"} if certified else {"fail", "comp"})
    return None, "?"


def flow(fn, site, vk, facts, need):
    """walk the CFG from the conversion: facts collected on edges; reads of vk need all of `need` and not 'bad'"""
    bl = fn.cfg
    start = None
    for b in bl.values():
        for i, el in enumerate(b.elems):
            if not isinstance(el, list) and el == site.id:
                start = (b.id, i)
                break
        if start:
            break
    if start is None:
        return None, "conversion not in the flow graph"
    seen = set()
    work = [(start[0], start[1] + 1, frozenset())]
    out = [i for i, p in enumerate(fn.params) if vk == "%s#%d" % (p[0], i)]
    out = out and ("&" in fn.params[out[0]][1] or "*" in fn.params[out[0]][1])
    while work:
        b, i, st = work.pop()
        if (b, i, st) in seen:
            continue
        seen.add((b, i, st))
        blk = bl[b]
        stop = False
        # the conversion itself may be listed twice in its block
        done = {site.id} if i else set()
        for j in range(i, len(blk.elems)):
            el = blk.elems[j]
            if isinstance(el, list) or el in done:
                continue
            done.add(el)
            x = fn.nodes[el]
            if x.k == "throw":
                stop = True
                break
            if x is site:
                stop = True     # converted again
                break
            if x.k == "return" and out and x.c and (fn.ret or "") == "bool":
                # the number is handed out through a reference together with a success flag
                e = strip(x.c[0])
                st2 = st
                if e is not None and e.k == "bool":
                    if not e.x[0]:
                        continue
                elif e is not None:
                    st2 = st | frozenset(conj(fn, facts, e, True))
                if not need <= st2 or "bad" in st2:
                    return False, "success is reported at line %d although the conversion may have failed or stopped early" % x.line
                continue
            if x.k in ("ref", "mem") and (("v%s" % x.x[2] == vk) if x.k == "ref" and x.x[0] == "v" else canon(x) == vk):
                if is_store(x):
                    p = x.p
                    if p is not None and p.k == "bin" and not any(y is site for y in p.walk()):
                        stop = True
                        break
                    continue
                if within_cond_of(x, site):
                    continue
                if inspected(x):
                    continue
                if not need <= st or "bad" in st:
                    return False, ("used at line %d although the conversion failed or stopped early" % x.line) \
                        if "bad" in st else ("used at line %d before %s was tested" % (
                            x.line, " and ".join({"comp": "the end of the text", "fail": "success",
                                                  "range": "the range"}[q] for q in sorted(need - st))))
        if stop:
            continue
        for k, s in enumerate(blk.succs):
            if s < 0:
                continue
            ec = edge_cond(fn, blk, k)
            ns = st
            if ec is not None:
                fs = conj(fn, facts, ec[0], ec[1])
                if fs:
                    ns = st | frozenset(fs)
            work.append((s, 0, ns))
    return True, ""


def conj(fn, facts, e, truth):
    """facts that hold when e evaluated to truth; looks through && || ! and boolean locals with one definition"""
    e, neg = polarity(e)
    if e is None:
        return ()
    t = truth != neg
    if e.k == "bin" and e.x[0] in ("&&", "||"):
        if (e.x[0] == "&&") == t:
            return tuple(conj(fn, facts, e.c[0], t)) + tuple(conj(fn, facts, e.c[1], t))
        return tuple(set(conj(fn, facts, e.c[0], t)) & set(conj(fn, facts, e.c[1], t)))
    if e.k == "ref" and e.x[0] == "v" and (e.type or "").replace("const ", "") == "bool":
        ds = local_defs(fn).get(e.x[2])
        if ds and len(ds) == 1 and ds[0] is not None and hasattr(ds[0], "k"):
            return conj(fn, facts, ds[0], t)
        return ()
    return facts(e, t)


def inspected(x):
    """the value is itself being tested (isfinite, range comparison)"""
    p = x.p
    while p is not None and (p.k in ("icast", "cast", "scast", "paren", "(")):
        p = p.p
    return p is not None and p.is_call() and (p.mname or "") in ("isfinite", "isinf", "isnan")


def within_cond_of(x, site):
    p = x
    while p is not None:
        if p is site:
            return True
        p = p.p
    return False
