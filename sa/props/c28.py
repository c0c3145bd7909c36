"""C28: the printer's quoting of identifiers and escaping of strings agrees with the lexer's specification."""
import os
import re

from ..facts import REPO, AnalysisError
from ..flow import strip, canon, local_defs, block_of, node_block
from ..lexspec import Spec
from ..charmap import CharMap, UNK
from ..must import LOOPS, edge_cond

EXPLANATION = (
    "The lexer specification (lib/lexer.lxx) is parsed into rules; the printer's quoteId and escapeStringLit instantiations are "
    "analysed in the type-checked program. Obligations: every alphabetic text the lexer turns into something other than an "
    "identifier is in the word list consulted by quoteId; each character quoteId accepts unquoted (first, and following) lexes "
    "as part of one identifier token; each return of the unquoted name is reached only past the word-list test, the first "
    "character test and a loop over all remaining characters; for each of the 255 characters the text written by the string "
    "escaper is decoded by the lexer's string rules to that character, alone and followed by every other character; quoted "
    "names are read back without their quotes.")

IDENT = "IDENTIFIER"


def find(prog, name, pred=None):
    return [f for f in prog.F.values() if re.search(r"(^|::)%s(<|$)" % name, f.q) and f.cfg is not None and (pred is None or pred(f))]


def closure(prog, f, depth=3):
    """function plus directly called repository helpers (not printing functions)"""
    out, todo = [], [(f, 0)]
    while todo:
        g, d = todo.pop()
        if g in out:
            continue
        out.append(g)
        if d < depth:
            for n in g.calls():
                for t in prog.targets(n):
                    if t.cfg is not None and t.file and not t.file.startswith("/") and len(t.nodes) < 1500:
                        todo.append((t, d + 1))
    return out


def global_nodes(prog, ref):
    """initialiser nodes of a referenced static or namespace variable"""
    v = prog.V.get(ref)
    return v


def strings_of(n):
    return [x.x[0] for x in n.walk() if x.k == "str"]


def var_strings(prog, raw):
    import json
    out = []

    def go(l):
        if isinstance(l, list) and len(l) == 5 and l[0] == "str":
            out.append(l[3][0])
        if isinstance(l, list):
            for x in l:
                if isinstance(x, (list, tuple)):
                    go(x)
    if raw and raw.get("body"):
        go(json.loads(raw["body"])["b"])
    return out


class Quote(object):
    def __init__(self, ctx, fn):
        self.ctx, self.prog, self.fn = ctx, ctx.prog, fn
        self.defs = local_defs(fn)

    def sources(self, n, depth=0, seen=None):
        """string literals a value stems from (through locals, statics, helper calls)"""
        seen = seen if seen is not None else set()
        out = []
        for x in n.walk():
            if x.k == "str":
                out.append(x.x[0])
            elif x.k == "ref" and x.x[0] in ("v", "s", "g", "m") and (x.x[1], x.x[2]) not in seen:
                seen.add((x.x[1], x.x[2]))
                if x.x[0] in ("v", "s"):
                    for d in x.fn.nodes:
                        if d.k == "var" and d.x[0] == x.x[1] and d.x[1] == x.x[2]:
                            out += self.sources(d, depth + 1, seen)
                out += var_strings(self.prog, self.prog.V.get(str(x.x[2])))
                out += var_strings(self.prog, self.prog.V.get(str(x.x[1])))
            elif x.k == "mem":
                out += var_strings(self.prog, self.prog.V.get(str(x.x[-1])))
            elif x.is_call() and depth < 4:
                for t in self.prog.targets(x):
                    if t.cfg is not None and t.file and not t.file.startswith("/") and t.key not in seen and len(t.nodes) < 1500:
                        seen.add(t.key)
                        out += self.sources(t.root, depth + 1, seen)
        return out


def members(n, truth):
    """interpret a condition as a membership test: (kind, container node or literal node, tested node, is_member_when_truth)"""
    n = strip(n)
    if n.k == "un" and n.x[0] == "!":
        return members(n.c[0], not truth)
    if n.k == "ocall" and n.mname == "operator!" and len(n.c) == 1:
        return members(n.c[0], not truth)
    if n.k in ("bin", "ocall") and len(n.c) == 2:
        op = n.x[0] if n.k == "bin" else n.mname.replace("operator", "")
        a, b = strip(n.c[0]), strip(n.c[1])
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if x.is_call() and x.mname in ("find", "strchr", "find_first_not_of", "memchr", "find_first_of", "lower_bound", "find_if", "none_of"):
                    neg = x.mname == "find_first_not_of"
                    absent = op == "=="          # equals end()/npos/nullptr
                    r = (absent != truth) != neg
                    return (x, r)
                if x.is_call() and x.mname == "count" and y.k in ("int", "icast"):
                    return (x, (op == "!=") == truth)
        if op in (">", ">=") and a.is_call() and a.mname == "count":
            return (a, truth)
        return None
    if n.is_call() and n.mname in ("strchr", "binary_search", "count", "contains", "memchr"):
        return (n, truth)
    return None


def check(ctx):
    prog = ctx.prog
    spec = Spec(os.path.join(REPO, "lib/lexer.lxx"))
    words = {}
    for r in spec.active("INITIAL"):
        l = r.literal
        if l and re.match(r"^_?[A-Za-z][A-Za-z0-9_]*$", l):
            t = spec.match(l)
            if t[0].token is not None and not t[0].token.endswith(IDENT):
                words[l] = r
    ctx.count("reserved words in the lexer", len(words))
    ctx.need("reserved words in the lexer", 40)
    if spec.match("_") and not spec.match("_")[0].token.endswith(IDENT):
        words["_"] = spec.match("_")[0]

    qs = find(prog, "quoteId")
    ctx.count("instantiations of quoteId", len(qs))
    ctx.need("instantiations of quoteId", 1)
    for q in qs:
        quote(ctx, q, words, spec)
    # the lexer hands out the name without quotes
    for t in ("'a b'", "'if'", "'1x'", "'a-b'", "'\xe4'"):
        m = spec.match(t)
        if m is None or m[1] != len(t):
            ctx.bad("quoted-name-lexes", "lib/lexer.lxx", "the quoted name %s is not read as one token" % t)
            continue
        r = m[0]
        ok = r.token is not None and IDENT in r.action
        ctx.check(ok, "quoted-name-token", "lib/lexer.lxx:%d" % r.line, "the quoted name %s is not an identifier token" % t)
        strip1 = re.search(r"strdup\(\s*yytext\s*\+\s*1\s*\)", r.action) and re.search(r"strlen\(\s*yytext\s*\)\s*-\s*2\s*\]\s*=\s*(0|'\\0')", r.action)
        alt = re.search(r"yytext\s*\+\s*1\s*,\s*yyleng\s*-\s*2|substr\(1", r.action)
        if strip1 or alt:
            ctx.ok("quotes stripped at lib/lexer.lxx:%d" % r.line)
        elif "strdup" in r.action or "yylval" in r.action:
            ctx.bad("quoted-name-stripped", "lib/lexer.lxx:%d" % r.line, "the token value of a quoted name is not the text between the quotes")

    es = find(prog, "escapeStringLit")
    ctx.count("instantiations of escapeStringLit", len(es))
    ctx.need("instantiations of escapeStringLit", 1)
    for e in es:
        escapes(ctx, e, spec)
    ctx.note("field names after '.' are separate tokens whose spelling is cut out of the text by the parser and are not covered here")


def quote(ctx, fn, words, spec):
    prog = ctx.prog
    Q = Quote(ctx, fn)
    short = fn.q.split("<")[0].split("::")[-1] + "<" + ("ASTString" if "ASTString" in fn.q else "string") + ">"
    fns = closure(prog, fn)
    # returns of the unquoted name
    raw = []
    for f in [fn]:
        for n in f.nodes:
            if n.k != "return" or not n.c:
                continue
            lits = [s for s in strings_of(n.c[0])]
            if any("'" in s for s in lits):
                continue
            if not any(x.k == "ref" for x in n.walk()):
                continue
            raw.append(n)
    ctx.check(bool(raw), "raw-return:" + short, fn.loc(), "no return of the unquoted name recognised")
    # conditions (cfg edges) and what they test
    tests = []      # (block, succ index, call, member?)
    for b in fn.cfg.values():
        if not b.term or len(b.succs) != 2 or b.term[2] < 0:
            continue
        cond = fn.nodes[b.term[2]]
        for i in (0, 1):
            for leaf, truth in expand(fn, cond, i == 0):
                m = members(leaf, truth)
                if m:
                    tests.append((b, i, m[0], m[1], leaf))
    wl, ch = [], []
    for t in tests:
        src = set(Q.sources(t[2]))
        src |= {s for p in [t[2]] for s in range_strings(Q, p)}
        (ch if any(len(s) >= 20 for s in src) else wl).append(t + (src,))
    ctx.check(bool(wl), "wordlist:" + short, fn.loc(), "no test of the name against a word list recognised")
    ctx.check(bool(ch), "chars:" + short, fn.loc(), "no test of the characters of the name recognised")
    # (1) the list contains every reserved word
    have = set()
    for t in wl:
        have |= t[5]
    for w, r in sorted(words.items()):
        if w == "_":
            continue
        ctx.check(w in have, "reserved:" + w, fn.loc(), "'%s' is reserved by the lexer (lib/lexer.lxx:%d) but is printed unquoted when used as an identifier" % (w, r.line),
                  "'%s' reserved and quoted" % w)
    # (2) characters
    for b, i, call, memb, leaf, src in ch:
        for s in src:
            if len(s) < 20:
                continue
            for c in s:
                first = not any(x.k in LOOPS for x in leaf.ancestors()) and call.mname != "find_first_not_of"
                txt = c if first else "a" + c
                m = spec.match(txt)
                ok = m and m[1] == len(txt) and (m[0].token or "").endswith(IDENT)
                if not ok and first and c == "_":
                    ok = False
                ctx.check(bool(ok), "char:%s:%s" % ("first" if first else "next", c), fn.loc(leaf),
                          "character '%s' is accepted in unquoted names but the lexer does not read it as part of an identifier" % c)
            m = spec.match("_" + s[0])
    # (3) no path to an unquoted return without the tests
    for r in raw:
        check_paths(ctx, fn, r, wl, ch, short, Q)
    loops(ctx, fn, ch, short, Q)
    nul(ctx, fn, ch, short)


def range_strings(Q, call):
    """literals of the container whose begin()/end() a std::find gets"""
    out = []
    for a in call.walk():
        if a.k == "mcall" and a.mname in ("begin", "end", "cbegin", "find", "count"):
            out += Q.sources(a.c[0])
    return out


def expand(fn, cond, truth):
    """leaf facts of a condition, local boolean variables replaced by their definition"""
    out = []
    cond = strip(cond)
    if cond.k == "un" and cond.x[0] == "!":
        return expand(fn, cond.c[0], not truth)
    if cond.k == "bin" and cond.x[0] in ("&&", "||"):
        if (cond.x[0] == "&&") == truth:
            return expand(fn, cond.c[0], truth) + expand(fn, cond.c[1], truth)
        # one of them: only the last leaf is decided here, earlier ones have their own block
        return expand(fn, cond.c[1], truth)
    if cond.k == "ref" and cond.x[0] == "v":
        ds = [d for d in fn.nodes if d.k == "var" and d.x[0] == cond.x[1] and d.x[1] == cond.x[2] and d.c]
        if len(ds) == 1:
            return expand(fn, ds[0].c[0], truth)
    return [(cond, truth)]


def reach(fn, start, forbidden_blocks=(), forbidden_edges=()):
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen or b < 0 or b in forbidden_blocks:
            continue
        seen.add(b)
        for i, s in enumerate(fn.cfg[b].succs):
            if s >= 0 and (b, i) not in forbidden_edges:
                todo.append(s)
    return seen


def early(fn):
    """edges on which the name is null or already quoted"""
    out = set()
    for b in fn.cfg.values():
        if not b.term or len(b.succs) != 2 or b.term[2] < 0:
            continue
        cond = strip(fn.nodes[b.term[2]])
        if cond.k == "bin" and cond.x[0] in ("==", "!="):
            vals = [strip(c) for c in cond.c]
            if any(v.k in ("int", "char") and v.x[0] == 39 for v in vals) or any(v.k == "nullptr" for v in vals):
                if any(x.is_call() and x.mname in ("strchr", "find", "memchr") for x in cond.walk()):
                    continue
                out.add((b.id, 0 if cond.x[0] == "==" else 1))
        if cond.is_call() and cond.mname in ("empty",):
            out.add((b.id, 0))
    return out


def check_paths(ctx, fn, ret, wl, ch, short, Q):
    rb = node_block(ret)
    ee = early(fn)
    # reserved edge must not reach the raw return
    for name, group, bad_when in (("word", wl, True), ("character", ch, False)):
        for b, i, call, memb, leaf, src in group:
            if memb == bad_when:
                ctx.check(rb not in reach(fn, b.succs[i], forbidden_edges=ee) or b.succs[i] < 0, "%s-test-ignored:%s" % (name, short), fn.loc(leaf),
                          "the name is returned unquoted although the %s test at line %d says it must be quoted" % (name, leaf.line),
                          "%s test at %s decides" % (name, fn.loc(leaf)))
        # every path to it passes a test of this group (edges with the right outcome)
        if not group:
            continue
        good = {(b.id, i) for b, i, call, memb, leaf, src in group if memb != bad_when}
        if name == "character":
            good = {(b.id, i) for b, i, call, memb, leaf, src in group if memb != bad_when and (not any(x.k in LOOPS for x in leaf.ancestors()) or call.mname == "find_first_not_of")}
            if not good:
                ctx.skip("first character test of " + short)
                continue
        ctx.check(rb not in reach(fn, fn.entry, forbidden_edges=ee | good), "%s-test-bypassed:%s" % (name, short), fn.loc(ret),
                  "a path returns the name unquoted without the %s test" % name, "unquoted return at %s behind %s test" % (fn.loc(ret), name))


def lin(fn, n, depth=0):
    """linear form of an index expression: ({symbol: coefficient}, constant) or None"""
    n = strip(n)
    if depth > 8:
        return None
    if n.k == "int":
        return ({}, n.x[0])
    if n.k == "ref":
        return ({"%s#%s" % (n.x[1], n.x[2]): 1}, 0)
    if n.k == "bin" and n.x[0] in ("+", "-"):
        a, b = lin(fn, n.c[0], depth + 1), lin(fn, n.c[1], depth + 1)
        if a is None or b is None:
            return None
        s = 1 if n.x[0] == "+" else -1
        d = dict(a[0])
        for k, v in b[0].items():
            d[k] = d.get(k, 0) + s * v
        return ({k: v for k, v in d.items() if v}, a[1] + s * b[1])
    return None


def tested_index(call):
    for a in call.args():
        t = strip(a)
        if t.k == "idx" or (t.k == "ocall" and t.mname == "operator[]"):
            return t.c[1]
        if t.k == "mcall" and t.mname == "at":
            return t.c[1]
    return None


def loops(ctx, fn, ch, short, Q):
    """the characters after the first tested one are all tested"""
    firsts, rests = [], []
    for b, i, call, memb, leaf, src in ch:
        if i != 0:
            continue
        lp = [x for x in leaf.ancestors() if x.k in LOOPS]
        if lp:
            rests.append((call, leaf, lp[0]))
        else:
            firsts.append((call, leaf))
    if not rests:
        if any(c[2].mname == "find_first_not_of" for c in ch):
            ctx.ok("rest tested by find_first_not_of")
        else:
            ctx.bad("rest-tested:" + short, fn.loc(), "the characters after the first are not tested in a loop")
        return
    fl = None
    for call, leaf in firsts:
        ix = tested_index(call)
        if ix is not None:
            fl = lin(fn, ix)
    for call, leaf, lp in rests:
        if lp.k == "rfor":
            ctx.ok("all characters tested (range loop)")
            continue
        if lp.k != "for":
            ctx.skip("loop form over the characters in " + short)
            continue
        ix = tested_index(call)
        li = lin(fn, ix) if ix is not None else None
        vs = [v for v in lp.c[0].walk() if v.k == "var" and v.c]
        if li is None or len(vs) != 1 or fl is None:
            ctx.skip("loop index over the characters in " + short)
            continue
        v = vs[0]
        tok = "%s#%s" % (v.x[0], v.x[1])
        init = lin(fn, v.c[0])
        if init is None or li[0].get(tok) != 1 or len(li[0]) != 1:
            ctx.skip("loop index over the characters in " + short)
            continue
        # first tested in the loop: init + li const <= fl + 1
        syms = {k: init[0].get(k, 0) - fl[0].get(k, 0) for k in set(init[0]) | set(fl[0])}
        gap = init[1] + li[1] - fl[1]
        if any(syms.values()) and not all(x < 0 for x in syms.values() if x):
            ctx.skip("start of the character loop in " + short)
        else:
            ctx.check(gap <= 1, "loop-start:" + short, fn.loc(lp), "the character loop starts %d places after the character tested first" % gap, "character loop starts right after the first character")
        cond = strip(lp.c[2])
        up = None
        if cond.k == "bin" and cond.x[0] in ("<", "!=", "<=") and strip(cond.c[0]).k == "ref":
            bound = cond.c[1]
            e = strip(bound)
            if e.k == "ref" and e.x[0] == "v":
                ds = [d for d in fn.nodes if d.k == "var" and d.x[0] == e.x[1] and d.x[1] == e.x[2] and d.c]
                if len(ds) == 1:
                    e = strip(ds[0].c[0])
            if e.is_call() and e.mname in ("size", "length", "strlen"):
                up = cond.x[0] in ("<", "!=") and li[1] == 0
            elif e.k == "bin" and e.x[0] == "-" and any(x.is_call() and x.mname in ("size", "length", "strlen") for x in e.walk()):
                up = False
        elif cond.k in ("bin",) and any(x.k == "idx" for x in cond.walk()):
            up = True
        if up is None:
            ctx.skip("end of the character loop in " + short)
        else:
            ctx.check(up, "loop-end:" + short, fn.loc(lp), "the character loop does not end at the end of the name", "character loop runs to the end of the name")
        step = [x for x in lp.c[3].walk() if x.k == "un" and x.x[0] in ("++", "p++")]
        if step:
            ctx.ok()
        else:
            ctx.skip("step of the character loop in " + short)


def nul(ctx, fn, ch, short):
    """strchr also finds the terminating NUL: the first character must exist for the test to mean anything"""
    for b, i, call, memb, leaf, src in ch:
        if i != 0 or call.mname != "strchr" or any(x.k in LOOPS for x in leaf.ancestors()):
            continue
        ix = tested_index(call)
        l = lin(fn, ix) if ix is not None else None
        if l is None:
            ctx.skip("index of the first character in " + short)
            continue
        # excluded when some condition before compares the character with 0 or the length
        guarded = any(x.k == "bin" and x.x[0] in ("==", "!=", "<", "<=", ">", ">=") and (
            any(y.is_call() and y.mname in ("size", "length", "strlen") for y in x.walk()) or
            any(strip(y).k in ("int", "char") and strip(y).x[0] == 0 and strip(x.c[0]).k in ("idx", "ocall") for y in x.c[1:]))
            and not any(a.k in LOOPS for a in x.ancestors()) for x in fn.nodes) or any(
            x.k == "un" and x.x[0] in ("!",) and strip(x.c[0]).k == "idx" for x in fn.nodes)
        ctx.check(guarded, "underscore:" + short, fn.loc(leaf),
                  "strchr finds the terminating NUL, so the name consisting of '_' alone counts as an identifier and is printed unquoted although the lexer reads it as an anonymous variable",
                  "end of name excluded before strchr")


def escapes(ctx, fn, spec):
    cm = CharMap(ctx.prog, fn)
    tab = cm.table()
    short = "ASTString" if "ASTString" in fn.q else "string"
    if tab is None:
        ctx.skip("escaping loop in " + fn.q[:60])
        return
    unk = [b for b in range(1, 256) if tab[b] is None]
    if len(unk) > 60:
        ctx.skip("escaping of %d characters in %s undecided" % (len(unk), fn.q[:60]))
        return
    enc = {}
    for b in range(1, 256):
        t = tab[b]
        if t is None:
            ctx.skip("escape of character %d" % b)
            continue
        if len(t) != 1:
            ctx.bad("escape:%d:%s" % (b, short), fn.loc(), "character %d is written in different ways: %s" % (b, sorted(t)))
            continue
        enc[b] = list(t)[0]
    for b, e in sorted(enc.items()):
        d = decode(spec, e)
        if d is UNK:
            ctx.skip("lexer action for %r" % e)
            continue
        ctx.check(d == chr(b), "escape:%d" % b, fn.loc(), "character %d is written as %r, which the lexer's string rules read as %s" % (b, e, "an error" if d is None else repr(d)),
                  "character %d -> %r -> back" % (b, e) if e != chr(b) else None)
    special = [b for b, e in enc.items() if e != chr(b)]
    n = 0
    for b in special:
        if decode(spec, enc[b]) != chr(b):
            continue
        for c, e in enc.items():
            if decode(spec, e) != chr(c):
                continue
            d = decode(spec, enc[b] + e)
            if d is UNK:
                continue
            n += 1
            if d != chr(b) + chr(c):
                ctx.bad("escape-pair:%d" % b, fn.loc(), "character %d followed by %d is written as %r, which the lexer reads as %r" % (b, c, enc[b] + e, d))
    ctx.ok(n=n)


def decode(spec, text):
    """text inside a string literal -> decoded characters, None when it is an error or ends the string"""
    toks = spec.tokens(text, "string")
    if toks is None:
        return None
    out = ""
    for r, t in toks:
        a = r.action
        if r.token is not None and "appendBuffer" not in a:
            return None
        m = re.search(r"appendBufferChar\(\s*yyget_extra\(yyscanner\)\s*,\s*(.+?)\)\s*;", a)
        if "appendBufferString" in a:
            if re.search(r"appendBufferString\([^;]*,\s*yytext\s*\)", a):
                out += t
            else:
                return UNK
        elif "hexstrtointval" in a:
            mm = re.search(r"hexstrtointval\(\s*yytext\s*\+\s*(\d+)", a)
            try:
                out += chr(int(t[int(mm.group(1)):], 16) & 255)
            except Exception:
                return None
        elif "octstrtointval" in a:
            mm = re.search(r"octstrtointval\(\s*yytext\s*\+\s*(\d+)", a)
            try:
                out += chr(int(t[int(mm.group(1)):], 8) & 255)
            except Exception:
                return None
        elif m:
            v = m.group(1).strip()
            q = re.match(r"^'(\\?.|\\x[0-9a-fA-F]+|\\[0-7]+)'$", v)
            y = re.match(r"^yytext\[(\d+)\]$", v)
            if q:
                from ..lexspec import unescape
                out += unescape(q.group(1))
            elif y:
                out += t[int(y.group(1))]
            else:
                return UNK
        elif not a.strip("{} \n"):
            pass
        else:
            return None if r.token else UNK
    return out
