"""The LALR automaton bison builds for a grammar specification, as data: used to decide how a token sequence groups."""
import os
import re
import subprocess
import tempfile
import xml.etree.ElementTree as ET

from .facts import AnalysisError


class Tree(object):
    __slots__ = ("sym", "rule", "kids", "lo", "hi", "text")

    def __init__(self, sym, rule, kids, lo, hi, text=None):
        self.sym, self.rule, self.kids, self.lo, self.hi, self.text = sym, rule, kids, lo, hi, text

    def walk(self):
        st = [self]
        while st:
            t = st.pop()
            yield t
            st.extend(t.kids)


class Grammar(object):
    def __init__(self, path):
        with open(path, encoding="latin-1") as f:
            self.text = f.read()
        d = tempfile.mkdtemp(prefix="gram")
        try:
            x = os.path.join(d, "g.xml")
            r = subprocess.run(["bison", "--xml=" + x, "-o", os.path.join(d, "g.cpp"), "--defines=" + os.path.join(d, "g.hh"), "-Wnone", path], capture_output=True, text=True)
            if r.returncode or not os.path.exists(x):
                raise AnalysisError("bison rejects %s: %s" % (path, r.stderr[:500]))
            root = ET.parse(x).getroot()
        finally:
            subprocess.run(["rm", "-rf", d])
        self.rules = []
        for e in root.find("grammar/rules"):
            rhs = e.find("rhs")
            self.rules.append((e.find("lhs").text, [s.text for s in rhs if s.tag == "symbol"]))
        self.states = []
        for e in root.find("automaton"):
            act, red, go = {}, {}, {}
            for t in e.find("actions/transitions"):
                (act if t.get("type") == "shift" else go)[t.get("symbol")] = int(t.get("state"))
            bad = set()
            for t in e.findall("actions/errors/error"):
                bad.add(t.get("symbol"))
            for t in e.find("actions/reductions"):
                if t.get("enabled") == "true":
                    red[t.get("symbol")] = t.get("rule")
            self.states.append((act, red, go, bad))
        # token constant -> grammar symbol
        self.sym = {}
        decl = self.text.split("\n%%")[0]
        for m in re.finditer(r"^%token\b(.*)$", decl, re.M):
            l = re.sub(r"<\w+>", "", m.group(1))
            for t in re.finditer(r"(\w+)\s*(\"(?:[^\"\\]|\\.)*\")?", l):
                self.sym[t.group(1)] = t.group(2) or t.group(1)
        for m in re.finditer(r"^%(?:left|right|nonassoc|precedence)\b(.*)$", decl, re.M):
            for t in re.finditer(r"(\w+)\s*(\"(?:[^\"\\]|\\.)*\")?", m.group(1)):
                if t.group(2):
                    self.sym[t.group(1)] = t.group(2)
                else:
                    self.sym.setdefault(t.group(1), t.group(1))
        self.symset = set(s for _, r in self.rules for s in r)
        self._actions()

    def symbol(self, token):
        """grammar symbol for a token name (MZN_PLUS) or a character"""
        t = token
        if t in self.sym:
            s = self.sym[t]
            if s in self.symset:
                return s
            s2 = s.replace("\\\\", "\\")
            for k in self.symset:
                if k.replace("\\\\", "\\") == s2:
                    return k
            return s
        return t

    def _actions(self):
        """action text of every rule, matched by order"""
        body = re.split(r"^%%\s*$", self.text, flags=re.M)[1]
        alts = []
        i = 0
        lhs = None
        cur = None
        n = len(body)
        while i < n:
            c = body[i]
            if c.isspace():
                i += 1
            elif body.startswith("/*", i):
                i = body.index("*/", i) + 2
            elif body.startswith("//", i):
                i = body.index("\n", i)
            elif c == "{":
                j = self._block(body, i)
                if cur is not None:
                    cur[2] = body[i:j]
                i = j
            elif c == "|":
                cur = [lhs, [], ""]
                alts.append(cur)
                i += 1
            elif c == ";":
                i += 1
            elif c == "%":
                m = re.match(r"%prec\s+\S+|%\w+", body[i:])
                i += m.end()
            elif c == "'" or c == '"':
                m = re.match(r"'(?:\\.|[^'\\])+'|\"(?:\\.|[^\"\\])*\"", body[i:])
                cur[1].append(m.group(0))
                i += m.end()
            else:
                m = re.match(r"\w+", body[i:])
                if not m:
                    i += 1
                    continue
                w = m.group(0)
                i += m.end()
                m2 = re.match(r"\s*:(?!:)", body[i:])
                if m2:
                    lhs = w
                    cur = [lhs, [], ""]
                    alts.append(cur)
                    i += m2.end()
                elif cur is not None:
                    cur[1].append(w)
        self.action = {}
        pos = {}
        byl = {}
        for k, (l, r) in enumerate(self.rules):
            byl.setdefault(l, []).append(k)
        for l, r, a in alts:
            ks = byl.get(l, [])
            p = pos.get(l, 0)
            if p < len(ks) and len(self.rules[ks[p]][1]) == len(r):
                self.action[ks[p]] = a
                pos[l] = p + 1
            else:
                # a rule with mid-rule actions: give up for this left-hand side
                pos[l] = 10 ** 6

    @staticmethod
    def _block(s, i):
        d = 0
        while i < len(s):
            c = s[i]
            if c == "{":
                d += 1
            elif c == "}":
                d -= 1
                if d == 0:
                    return i + 1
            elif c == '"':
                i += 1
                while s[i] != '"':
                    i += 2 if s[i] == "\\" else 1
            elif c == "'":
                m = re.match(r"'(\\.|[^'\\])+'", s[i:])
                if m:
                    i += m.end() - 1
            elif s.startswith("//", i):
                i = s.index("\n", i)
            elif s.startswith("/*", i):
                i = s.index("*/", i) + 1
            i += 1
        return i

    def parse(self, toks):
        """toks: [(symbol, text)] -> Tree or (None, index of the offending token)"""
        stack = [0]
        trees = []
        pos = 0
        toks = list(toks) + [('"end of file"', ""), ("$end", "")]
        steps = 0
        while True:
            steps += 1
            if steps > 200000:
                raise AnalysisError("parser does not terminate")
            act, red, go, bad = self.states[stack[-1]]
            t = toks[pos][0]
            if t in act:
                trees.append(Tree(t, None, [], pos, pos + 1, toks[pos][1]))
                stack.append(act[t])
                pos += 1
                continue
            if t in bad:
                return None, pos
            r = red.get(t, red.get("$default"))
            if r is None:
                return None, pos
            if r == "accept":
                return trees[0], pos
            r = int(r)
            lhs, rhs = self.rules[r]
            k = len(rhs)
            kids = trees[len(trees) - k:] if k else []
            if k:
                del trees[len(trees) - k:]
                del stack[len(stack) - k:]
            lo = kids[0].lo if kids else pos
            hi = kids[-1].hi if kids else pos
            trees.append(Tree(lhs, r, kids, lo, hi))
            g = self.states[stack[-1]][2]
            if lhs == "$accept":
                return trees[-1], pos
            stack.append(g[lhs])


class Reader(object):
    """text -> tokens of the grammar, by the lexer specification"""

    def __init__(self, spec, gram):
        self.spec, self.gram = spec, gram

    avoid = ("QUOTED_IDENTIFIER",)   # returned for quoted names in FlatZinc only

    def tokens(self, text):
        """[(symbol, text, start offset)] or (None, offset)"""
        state = ["INITIAL"]
        pos, out = 0, []
        while pos < len(text):
            b = self.spec.match(text, pos, state[-1])
            if b is None:
                return None, pos
            r, end = b
            t = text[pos:end]
            if r.token:
                tok = r.token
                alts = [x for x in re.findall(r"return\s+([A-Za-z_]\w*)\s*;", r.action) if x not in self.avoid]
                if len(alts) == 1:
                    tok = alts[0]
                if tok in ("*yytext", "(unsigned char)yytext[0]", "yytext[0]"):
                    tok = "'%s'" % t[0]
                out.append((self.gram.symbol(tok), t, pos))
            for m in re.finditer(r"yy_(push|pop)_state\((\w+)", r.action):
                if m.group(1) == "push":
                    state.append(m.group(2))
                elif len(state) > 1:
                    state.pop()
            pos = end
        return out, pos

    def parse(self, text):
        toks, p = self.tokens(text)
        if toks is None:
            return None, "the lexer rejects it at %r" % text[p:p + 12], None
        tree, q = self.gram.parse([(a, b) for a, b, c in toks])
        if tree is None:
            return None, "syntax error at %r" % (text[toks[q][2]:][:12] if q < len(toks) else "end"), toks
        return tree, None, toks
