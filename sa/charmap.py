"""Per-character effect of an escaping function: each of the 256 values is propagated through the control-flow graph
of the loop over the characters (branches on the character are decided, all others followed both ways) and the
constants written on the way are collected. Nothing is executed; undecidable writes make the result unknown."""
import re

from .flow import strip, local_defs
from .must import LOOPS, body_entries, header_blocks
from .facts import last_name

UNK = object()
CTYPE = {
    "iscntrl": lambda b: b < 32 or b == 127, "isalnum": lambda b: b < 128 and chr(b).isalnum(),
    "isalpha": lambda b: b < 128 and chr(b).isalpha(), "isdigit": lambda b: 48 <= b <= 57,
    "isprint": lambda b: 32 <= b < 127, "isspace": lambda b: b in (32, 9, 10, 11, 12, 13),
}


def char_type(t):
    t = re.sub(r"\b(const|volatile)\b|&", "", t).strip()
    return t in ("char", "unsigned char", "signed char")


class CharMap(object):
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.loops = [n for n in fn.nodes if n.k in LOOPS]
        self.hexfmt = any(n.k == "ref" and n.x[1] == "hex" for n in fn.nodes)
        self.fill0 = any(n.k == "int" and n.x[0] == 48 for n in fn.nodes) or any(
            n.is_call() and n.mname == "setfill" for n in fn.nodes)

    # value of an expression when the character is b: int, str, or UNK
    def ev(self, n, b, fn, env, depth=0):
        if depth > 12:
            return UNK
        while n.k in ("icast", "cast", "paren", "cleanup", "darg", "mat", "temp", "bindtemp") and len(n.c) == 1:
            v = self.ev(n.c[0], b, fn, env, depth + 1)
            if isinstance(v, int) and n.k in ("icast", "cast"):
                t = n.type
                if re.sub(r"\bconst\b", "", t).strip() == "unsigned char" and v < 0:
                    v += 256
                elif re.sub(r"\bconst\b", "", t).strip() in ("char", "signed char") and v > 127:
                    v -= 256
                elif "unsigned" in t and v < 0:
                    v += 1 << 32
            return v
        if n.k == "int" or n.k == "char":
            return n.x[0] if isinstance(n.x[0], int) else UNK
        if n.k == "bool":
            return int(bool(n.x[0]))
        if n.k == "str":
            return n.x[0]
        if n.k in ("nullptr",):
            return 0
        if n.k == "ref" and n.x[0] in ("v", "p"):
            key = (n.x[0], n.x[1], n.x[2])
            if key in env:
                return env[key]
            if char_type(n.type) and n.x[0] == "v":
                return b if b < 128 else b - 256
        if char_type(n.type) and n.k in ("idx", "un", "ocall", "mcall", "ref"):
            if n.k == "un" and n.x[0] not in ("*",):
                return UNK
            if n.k == "mcall" and n.mname not in ("at", "front", "operator[]"):
                return UNK
            return b if b < 128 else b - 256
        if n.k == "un" and n.x[0] == "!":
            v = self.ev(n.c[0], b, fn, env, depth + 1)
            return UNK if v is UNK or isinstance(v, str) else int(not v)
        if n.k == "bin":
            o = n.x[0]
            x = self.ev(n.c[0], b, fn, env, depth + 1)
            y = self.ev(n.c[1], b, fn, env, depth + 1)
            if o == "&&":
                if x == 0 or y == 0:
                    return 0
                return UNK if UNK in (x, y) else 1
            if o == "||":
                if (isinstance(x, int) and x) or (isinstance(y, int) and y):
                    return 1
                return UNK if UNK in (x, y) else 0
            if x is UNK or y is UNK or isinstance(x, str) or isinstance(y, str):
                return UNK
            try:
                return {"==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), "<=": lambda: int(x <= y),
                        ">": lambda: int(x > y), ">=": lambda: int(x >= y), "&": lambda: x & y, "|": lambda: x | y,
                        "+": lambda: x + y, "-": lambda: x - y, ">>": lambda: x >> y, "<<": lambda: x << y}[o]()
            except KeyError:
                return UNK
        if n.k == "?:":
            c = self.ev(n.c[0], b, fn, env, depth + 1)
            if c is UNK:
                return UNK
            return self.ev(n.c[1] if c else n.c[2], b, fn, env, depth + 1)
        if n.k == "call":
            m = n.mname
            if m in CTYPE and n.args():
                v = self.ev(n.args()[0], b, fn, env, depth + 1)
                return int(CTYPE[m](v & 255)) if isinstance(v, int) else UNK
            if m in ("strchr",) and len(n.args()) == 2:
                s = self.ev(n.args()[0], b, fn, env, depth + 1)
                v = self.ev(n.args()[1], b, fn, env, depth + 1)
                if isinstance(s, str) and isinstance(v, int):
                    return int((v & 255) == 0 or chr(v & 255) in s)
                return UNK
        if n.k == "ctor" and n.c:
            a = [x for x in n.c if x.k != "darg"]
            if len(a) == 1:
                return self.ev(a[0], b, fn, env, depth + 1)
            if len(a) == 2 and "basic_string" in (n.cq or ""):
                k = self.ev(a[0], b, fn, env, depth + 1)
                c = self.ev(a[1], b, fn, env, depth + 1)
                if k == 1 and isinstance(c, int):
                    return chr(c & 255)
        return UNK

    def _lit(self, n, b, fn, env):
        """text a written operand contributes"""
        v = self.ev(n, b, fn, env)
        if isinstance(v, str):
            return v
        t = strip(n)
        if isinstance(v, int):
            ct = n.type
            if char_type(ct) or char_type(t.type):
                return chr(v & 255)
            return ("num", v)
        # helper function applied to the character
        c = t
        if c.is_call() and c.k in ("call", "mcall"):
            r = self._call(c, b, fn, env)
            if r is not None:
                return r
        if c.k == "ref" and c.x[1] in ("hex", "dec", "uppercase", "nouppercase"):
            return ("fmt", c.x[1])
        if c.k == "call" and c.mname in ("setw", "setfill"):
            return ("fmt", c.mname, self.ev(c.args()[0], b, fn, env))
        return UNK

    def _call(self, c, b, fn, env, depth=0):
        for t in self.prog.targets(c):
            f = t
            if f.cfg is None or not f.file:
                continue
            e2 = {}
            for i, a in enumerate(c.args()):
                if i < len(f.params):
                    v = self.ev(a, b, fn, env)
                    if v is not UNK:
                        e2[("p", f.params[i][0], i)] = v
            seqs = self.run(f, b, e2, None, depth + 1)
            if seqs is not None and len(seqs) == 1:
                return list(seqs)[0]
        return None

    def writes(self, n, b, fn, env):
        """texts written by evaluating element n itself (not its sub-elements)"""
        if n.k == "ocall" and n.mname == "operator<<" and len(n.c) == 2:
            return [self._lit(n.c[1], b, fn, env)]
        if n.k == "ocall" and n.mname == "operator+=" and len(n.c) == 2:
            return [self._lit(n.c[1], b, fn, env)]
        if n.k == "mcall" and n.mname in ("push_back", "append", "put", "operator<<"):
            a = n.args()
            if len(a) == 2 and n.mname == "append":
                k = self.ev(a[0], b, fn, env)
                ch = self.ev(a[1], b, fn, env)
                if isinstance(k, int) and isinstance(ch, int):
                    return [chr(ch & 255) * k]
                return [UNK]
            return [self._lit(a[0], b, fn, env)] if a else [UNK]
        if n.k in ("call", "mcall") and n.p is not None:
            # helper that writes: void function given the character
            ts = [t for t in self.prog.targets(n) if t.cfg is not None and t.file]
            if ts and ts[0].ret == "void":
                r = self._call(n, b, fn, env)
                return [r if r is not None else UNK]
        return []

    def run(self, fn, b, env, loop, depth=0):
        """set of possible texts (str) for character b, over all paths of one iteration of `loop` (or the whole function)"""
        if depth > 4:
            return None
        if loop is not None:
            starts = body_entries(fn, loop)
            hdr = header_blocks(fn, loop)
        else:
            starts, hdr = [fn.entry], set()
        out = set()
        todo = [(s, (), dict(env), frozenset()) for s in starts]
        steps = 0
        while todo:
            bl, acc, e, seen = todo.pop()
            steps += 1
            if steps > 400:
                return None
            if bl in hdr or (loop is None and bl == fn.exit):
                out.add(self._join(acc))
                continue
            if bl in seen or bl < 0:
                continue
            seen = seen | {bl}
            block = fn.cfg[bl]
            e = dict(e)
            done = False
            for el in block.elems:
                if isinstance(el, list):
                    continue
                n = fn.nodes[el]
                if n.k == "decl":
                    for v in n.c:
                        if v.k == "var" and v.c:
                            val = self.ev(v.c[0], b, fn, e)
                            if val is not UNK:
                                e[("v", v.x[0], v.x[1])] = val
                            elif strip(v.c[0]).is_call():
                                r = self._lit(v.c[0], b, fn, e)
                                if isinstance(r, str):
                                    e[("v", v.x[0], v.x[1])] = r
                elif n.k == "bin" and n.x[0] == "=" and strip(n.c[0]).k == "ref":
                    l = strip(n.c[0])
                    val = self.ev(n.c[1], b, fn, e)
                    if val is not UNK and l.x[0] in ("v", "p"):
                        e[(l.x[0], l.x[1], l.x[2])] = val
                elif n.k == "return" and loop is None and n.c and fn.ret != "void":
                    r = self._lit(n.c[0], b, fn, e)
                    acc = acc + (r,)
                    done = True
                w = self.writes(n, b, fn, e)
                acc = acc + tuple(w)
            if done:
                out.add(self._join(acc))
                continue
            t = block.term
            succs = list(block.succs)
            if t and t[2] >= 0 and len(succs) > 1:
                cond = fn.nodes[t[2]]
                if t[0] == "SwitchStmt":
                    v = self.ev(cond, b, fn, e)
                    if v is not UNK:
                        pick = None
                        dflt = None
                        for s in succs:
                            lab = fn.cfg[s].label if s >= 0 else -1
                            ln = fn.nodes[lab] if lab is not None and lab >= 0 else None
                            if ln is not None and ln.k == "case":
                                lo, hi = ln.x[0], ln.x[1]
                                if lo is not None and (v == lo or (isinstance(hi, int) and lo <= v <= hi)):
                                    pick = s
                            else:
                                dflt = s
                        succs = [pick if pick is not None else dflt]
                else:
                    v = self.ev(cond, b, fn, e)
                    if isinstance(v, int):
                        succs = [succs[0] if v else succs[1]]
            for s in succs:
                if s is not None and s >= 0:
                    todo.append((s, acc, e, seen))
        return out

    def _join(self, acc):
        s = ""
        hexa = up = False
        width = 0
        for a in acc:
            if a is UNK:
                return UNK
            if isinstance(a, tuple) and a and a[0] == "fmt":
                if a[1] == "hex":
                    hexa = True
                elif a[1] == "setw":
                    width = a[2] if isinstance(a[2], int) else 0
                continue
            if isinstance(a, tuple) and a and a[0] == "num":
                v = a[1]
                t = ("%x" % (v & 0xffffffff)) if hexa else "%d" % v
                s += t.rjust(width, "0" if self.fill0 else " ")
                width = 0
                continue
            if not isinstance(a, str):
                return UNK
            s += a
        return s

    def table(self):
        """{byte: set of texts or None} for the (first) loop over the characters"""
        loop = None
        for l in self.loops:
            if any(char_type(n.type) and n.k in ("idx", "un", "ocall", "ref", "mcall") for n in l.walk()):
                loop = l
                break
        if loop is None:
            return None
        out = {}
        for b in range(256):
            r = self.run(self.fn, b, {}, loop)
            out[b] = None if r is None or UNK in r or not r else r
        return out
