"""Reads a flex specification: the rules per start condition, with each pattern turned into a Python regular
expression, so questions such as 'which token does this text become' are answered from the specification."""
import re

from .facts import AnalysisError


class Rule(object):
    def __init__(self, states, pat, action, line, excl):
        self.states, self.pat, self.action, self.line = states, pat, action, line
        self.excl = excl
        self.rx = None if pat == "<<EOF>>" else re.compile(to_regex(pat), re.S)
        m = re.search(r"\breturn\s+([^;]+);", action)
        self.token = m.group(1).strip() if m else None

    @property
    def literal(self):
        """the exact text for patterns which are one quoted literal"""
        if self.pat.startswith('"') and self.pat.endswith('"') and len(self.pat) > 2:
            body = self.pat[1:-1]
            if not re.search(r'(?<!\\)"', body):
                return unescape(body)
        if re.match(r"^(?:[^\\\"\[\](){}|*+?.^$/<>]|\\[^0-9xa-z])+$", self.pat):
            return re.sub(r"\\(.)", r"\1", self.pat)
        return None


def unescape(s):
    return re.sub(r"\\(x[0-9a-fA-F]{1,2}|[0-7]{1,3}|.)", lambda m: _esc(m.group(1)), s)


def _esc(e):
    if e[0] == "x":
        return chr(int(e[1:], 16))
    if e[0].isdigit():
        return chr(int(e, 8))
    return {"n": "\n", "t": "\t", "r": "\r", "f": "\f", "v": "\v", "a": "\a", "b": "\b"}.get(e, e)


def to_regex(p):
    out = []
    i = 0
    while i < len(p):
        c = p[i]
        if c == '"':
            j = i + 1
            while p[j] != '"':
                j += 2 if p[j] == "\\" else 1
            out.append("(?:" + re.escape(unescape(p[i + 1:j])) + ")")
            i = j + 1
        elif c == "[":
            j = i + 1
            neg = p[j] == "^"
            if neg:
                j += 1
            items = []
            first = True
            while p[j] != "]" or first:
                first = False
                if p[j] == "\\":
                    m = re.match(r"\\(x[0-9a-fA-F]{1,2}|[0-7]{1,3}|.)", p[j:])
                    items.append(_esc(m.group(1)))
                    j += m.end()
                elif p[j] == "-" and items and p[j + 1] != "]":
                    items.append(None)
                    j += 1
                else:
                    items.append(p[j])
                    j += 1
            s = ""
            for x in items:
                s += "-" if x is None else re.escape(x)
            out.append("[" + ("^" if neg else "") + s + "]")
            i = j + 1
        elif c == "\\":
            m = re.match(r"\\(x[0-9a-fA-F]{1,2}|[0-7]{1,3}|.)", p[i:])
            out.append(re.escape(_esc(m.group(1))))
            i += m.end()
        elif c == ".":
            out.append("[^\\n]")
            i += 1
        elif c in "()|*+?":
            out.append(c)
            i += 1
        elif c == "{":
            j = p.index("}", i)
            out.append(p[i:j + 1])
            i = j + 1
        else:
            out.append(re.escape(c))
            i += 1
    return "".join(out)


def split_rule(line):
    """pattern and action text of one rule line"""
    i = 0
    q = b = False
    while i < len(line):
        c = line[i]
        if c == "\\":
            i += 2
            continue
        if q:
            q = c != '"'
        elif b:
            b = c != "]"
        elif c == '"':
            q = True
        elif c == "[":
            b = True
            if line[i + 1:i + 2] == "]":
                i += 1
        elif c in " \t":
            break
        i += 1
    return line[:i], line[i:].strip()


class Spec(object):
    def __init__(self, path):
        self.path = path
        with open(path, encoding="latin-1") as f:
            text = f.read()
        parts = re.split(r"^%%\s*$", text, flags=re.M)
        if len(parts) < 2:
            raise AnalysisError("no rule section in " + path)
        head, rules = parts[0], parts[1]
        self.code = head + (parts[2] if len(parts) > 2 else "")
        self.exclusive = set()
        for m in re.finditer(r"^%x\s+(.*)$", head, re.M):
            self.exclusive.update(m.group(1).split())
        line0 = head.count("\n") + 2
        self.rules = []
        self._parse(rules.split("\n"), line0)
        if len(self.rules) < (5 if "regex" in path else 100):
            raise AnalysisError("only %d lexer rules recognised in %s" % (len(self.rules), path))

    def _parse(self, lines, no):
        outer = None
        i = 0
        while i < len(lines):
            l = lines[i]
            n = no + i
            i += 1
            s = l.strip()
            if not s or (l[0] in " \t" and outer is None) or s.startswith("/*"):
                continue
            if s == "}" and outer is not None:
                outer = None
                continue
            m = re.match(r"^<([A-Za-z_,*]+)>\{$", s)
            if m:
                outer = m.group(1).split(",")
                continue
            st = outer
            if outer is None:
                m = re.match(r"^<([A-Za-z_,*]+)>", s)
                if m:
                    st = m.group(1).split(",")
                    s = s[m.end():]
            pat, act = split_rule(s)
            depth = self._depth(act)
            while depth > 0 and i < len(lines):
                act += "\n" + lines[i]
                depth += self._depth(lines[i])
                i += 1
            # a pattern whose action block starts on the next lines belongs to the same rule (flex wants it there)
            self.rules.append(Rule(st, pat, act, n, None))

    @staticmethod
    def _depth(s):
        s = re.sub(r"'(?:\\.|[^'\\])'|\"(?:\\.|[^\"\\])*\"|/\*.*?\*/", "", s)
        return s.count("{") - s.count("}")

    def active(self, state):
        for r in self.rules:
            if r.states is None:
                if state not in self.exclusive:
                    yield r
            elif state in r.states or "*" in r.states:
                yield r

    def match(self, text, pos=0, state="INITIAL"):
        best = None
        for r in self.active(state):
            if r.rx is None:
                continue
            m = r.rx.match(text, pos)
            if m and m.end() > pos and (best is None or m.end() > best[1]):
                best = (r, m.end())
        return best

    def tokens(self, text, state="INITIAL"):
        """[(rule, text)] by longest match, first rule; None when the text does not lex in this state"""
        pos = 0
        out = []
        while pos < len(text):
            b = self.match(text, pos, state)
            if b is None:
                return None
            out.append((b[0], text[pos:b[1]]))
            pos = b[1]
        return out
