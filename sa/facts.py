"""Fact base: builds the clang extractor, extracts facts for every translation unit of /repo's current
working tree, and offers the resolved program (functions, classes, enums, call graph, CFGs) to the checks.

Nothing of the project is executed: cmake only configures (to obtain the real compile commands and config.hh)
and bison/flex (or the cached copies) produce the generated parser sources."""
import hashlib
import json
import re
import os
import shlex
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MZNSA_REPO", "/repo")
BUILD = os.environ.get("MZNSA_BUILD", os.path.join(VERIF, "build"))


class AnalysisError(Exception):
    """The analysis itself cannot be carried out (vanished anchor, zero instances, ...)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def ensure_tool():
    src = os.path.join(VERIF, "tool", "mznsa.cpp")
    key = _sha(_read(src))
    exe = os.path.join(BUILD, "mznsa-" + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    inc, lib = "/usr/lib/llvm-18/include", "/usr/lib/llvm-18/lib"
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I" + inc, "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "-L" + lib, "-Wl,-rpath," + lib, "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    if subprocess.call(["which", "clang++"], stdout=subprocess.DEVNULL) != 0:
        cmd[0] = "g++"
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisError("cannot build extractor: " + p.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def _cmake_key():
    fs = []
    for d, _, files in os.walk(REPO):
        if d.startswith(os.path.join(REPO, "_build")) or "/.git" in d:
            continue
        for f in files:
            if f == "CMakeLists.txt" or f.endswith(".cmake") or f.endswith(".in"):
                fs.append(os.path.join(d, f))
    # the sources that cmake globs or that bison/flex read
    h = []
    for f in sorted(fs):
        h.append(f)
        h.append(_read(f))
    for f in ("lib/parser.yxx", "lib/lexer.lxx", "lib/support/regex/parser.yxx", "lib/support/regex/lexer.lxx"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.append(f)
            h.append(_read(p))
    return _sha(REPO, *h)


def prepare():
    """Configure (never build) and produce compile commands and generated parser sources."""
    cfg = os.path.join(BUILD, "cfg-" + _cmake_key())
    ok = os.path.join(cfg, ".ready")
    if not os.path.exists(ok):
        os.makedirs(cfg, exist_ok=True)
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
        p = subprocess.run(["cmake", "-S", REPO, "-B", cfg, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                            "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], capture_output=True, text=True, env=env)
        if p.returncode != 0:
            raise AnalysisError("cmake configure failed: " + p.stderr[-2000:])
        gen = [n for n in ("parser.tab.cpp", "lexer.yy.cpp", "regex_parser.tab.cpp", "regex_lexer.yy.cpp")]
        p = subprocess.run(["ninja", "-C", cfg] + gen, capture_output=True, text=True, env=env)
        if p.returncode != 0:
            # cached-parser configuration: the custom target has another name; build it through the copies
            for n in gen:
                src = os.path.join(REPO, "lib", "cached", n)
                if os.path.exists(src):
                    with open(os.path.join(cfg, n), "wb") as f:
                        f.write(_read(src))
        open(ok, "w").close()
    with open(os.path.join(cfg, "compile_commands.json")) as f:
        db = json.load(f)
    return cfg, db


def _args(x):
    a = shlex.split(x["command"])
    out = []
    it = iter(a[1:])
    for t in it:
        if t in ("-o", "-c", "-MF", "-MT"):
            next(it)
            continue
        if t in ("-MD",):
            continue
        out.append(t)
    return out


def extract(verbose=False):
    exe = ensure_tool()
    cfg, db = prepare()
    fdir = os.path.join(BUILD, "facts")
    os.makedirs(fdir, exist_ok=True)
    toolkey = os.path.basename(exe)
    hcache = {}

    def fh(p):
        if p not in hcache:
            try:
                hcache[p] = _sha(_read(p))
            except OSError:
                hcache[p] = "missing"
        return hcache[p]

    units = []
    seen = set()
    for x in db:
        src = x["file"]
        if src.endswith(".c") or src in seen:
            continue
        seen.add(src)
        units.append((src, _args(x)))
    results = {}
    t0 = time.time()
    ran = [0]

    def one(u):
        src, args = u
        base = os.path.join(fdir, _sha(toolkey, src, *args))
        facts, meta = base + ".facts", base + ".dep"
        if os.path.exists(facts) and os.path.exists(meta):
            with open(meta) as f:
                m = json.load(f)
            if all(fh(p) == h for p, h in m["deps"].items()):
                return src, facts
        tmp = facts + ".tmp%d" % os.getpid()
        p = subprocess.run([exe, tmp, REPO.rstrip("/") + "/," + cfg + "/", src, "--"] + args,
                           capture_output=True, text=True, cwd=cfg)
        if p.returncode != 0:
            raise AnalysisError("extraction of %s failed:\n%s" % (src, p.stderr[-3000:]))
        deps = {}
        with open(tmp) as f:
            for line in f:
                if line.startswith("D\t"):
                    q = line[2:].rstrip("\n")
                    deps[q] = fh(q)
        with open(meta + ".tmp%d" % os.getpid(), "w") as f:
            json.dump({"src": src, "deps": deps}, f)
        os.replace(tmp, facts)
        os.replace(meta + ".tmp%d" % os.getpid(), meta)
        ran[0] += 1
        return src, facts

    with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        for src, facts in ex.map(one, units):
            results[src] = facts
    if verbose:
        print("extracted %d/%d translation units in %.1fs" % (ran[0], len(units), time.time() - t0))
    # drop stale fact files of the same unit set (disk)
    keep = set(results.values())
    for f in os.listdir(fdir):
        if f.endswith(".facts") and os.path.join(fdir, f) not in keep:
            p = os.path.join(fdir, f)
            try:
                if time.time() - os.path.getmtime(p) > 3600:
                    os.unlink(p)
                    os.unlink(p[:-6] + ".dep")
            except OSError:
                pass
    return cfg, results


_ln = {}


def last_name(q):
    r = _ln.get(q)
    if r is None:
        s = q
        m = re.search(r"operator(<=>|<<=?|>>=?|->\*?|<=?|>=?)$", s)
        if m:
            r = m.group(0)
        else:
            if s.endswith(">"):
                d = 0
                for i in range(len(s) - 1, -1, -1):
                    if s[i] == ">" and s[i - 1] != "-":
                        d += 1
                    elif s[i] == "<":
                        d -= 1
                        if d == 0:
                            s = s[:i]
                            break
            d, cut = 0, 0
            i = len(s) - 1
            while i > 0:
                if s[i] == ">" and s[i - 1] != "-":
                    d += 1
                elif s[i] == "<":
                    d -= 1
                elif s[i] == ")":
                    d += 1
                elif s[i] == "(":
                    d -= 1
                elif d == 0 and s[i] == ":" and s[i - 1] == ":":
                    cut = i + 1
                    break
                i -= 1
            r = s[cut:]
            m = re.search(r"(?:^|::)(operator(<=>|<<=?|>>=?|->\*?|<=?|>=?)) ?<[^>]", q)
            if m:
                r = m.group(1)
        _ln[q] = r
    return r


class Node(object):
    __slots__ = ("k", "line", "t", "x", "c", "id", "p", "fn")

    def __repr__(self):
        return "<%s@%d %r>" % (self.k, self.line, self.x)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.c))

    @property
    def type(self):
        return self.fn.types[self.t] if self.t >= 0 else ""

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    # resolved callee key for call-like nodes
    @property
    def callee(self):
        if self.k in ("call", "mcall", "ocall", "ctor", "mref"):
            return self.x[0]
        return None

    @property
    def cq(self):
        """qualified callee name without parameter list"""
        if self.k in ("call", "mcall", "ocall", "ctor", "mref"):
            return self.x[2]
        return None

    @property
    def mname(self):
        """unqualified callee name without template arguments"""
        q = self.cq
        return last_name(q) if q else ""

    def args(self):
        """call arguments (member calls: without the object)"""
        if self.k == "mcall":
            return self.c[1:]
        if self.k == "icall":
            return self.c[1:]
        return self.c

    def is_call(self):
        return self.k in ("call", "mcall", "ocall", "ctor")


class Block(object):
    __slots__ = ("id", "elems", "term", "succs", "label", "noret", "preds")


class Function(object):
    def __init__(self, prog, key, meta, body):
        self.prog = prog
        self.key = key
        m = meta
        self.q = m["q"]
        self.name = m["n"]
        self.file = m["f"]
        self.line = m["l"]
        self.end = m["e"]
        self.cls = m.get("cls")
        self.kind = m["k"]
        self.callees = m["cal"]
        self.ov = m.get("ov", [])
        self.virt = bool(m.get("virt"))
        self.static = bool(m.get("static"))
        self.islambda = bool(m.get("lambda"))
        self.pf = m.get("pf")
        self.internal = bool(m.get("int"))
        self.nothrow = bool(m.get("nothrow"))
        self.defaulted = bool(m.get("defaulted"))
        self.ti = bool(m.get("ti"))
        self._raw = body
        self._loaded = False

    def __repr__(self):
        return "<fn %s>" % self.key

    def loc(self, node=None):
        return "%s:%d" % (self.file, node.line if node is not None else self.line)

    def _load(self):
        if self._loaded:
            return
        d = json.loads(self._raw)
        self._raw = None
        self.types = d["t"]
        self._params = [(p[0], self.types[p[1]], p[2], p[3]) for p in d["p"]]
        self._ret = self.types[d["rt"]]
        self._vars = {int(k): (v[0], v[1]) for k, v in d["v"].items()}
        nodes = []

        def mk(l, parent):
            # iterative pre-order
            root = None
            stack = [(l, parent)]
            while stack:
                cur, par = stack.pop()
                n = Node()
                n.k = cur[0]
                n.line = cur[1]
                n.t = cur[2]
                n.x = cur[3]
                n.c = []
                n.id = len(nodes)
                n.p = par
                n.fn = self
                nodes.append(n)
                if par is not None:
                    par.c.append(n)
                if root is None:
                    root = n
                for ch in reversed(cur[4]):
                    stack.append((ch, n))
            return root

        self._root = mk(d["b"], None)
        self._nodes = nodes
        self._cfg = d["cfg"]
        self._blocks = None
        self._loaded = True

    @property
    def root(self):
        self._load()
        return self._root

    @property
    def nodes(self):
        self._load()
        return self._nodes

    @property
    def params(self):
        self._load()
        return self._params

    @property
    def ret(self):
        self._load()
        return self._ret

    @property
    def vars(self):
        self._load()
        return self._vars

    @property
    def body(self):
        return self.root.c[-1] if self.root.c else None

    def walk(self):
        return iter(self.nodes)

    def calls(self):
        for n in self.nodes:
            if n.k in ("call", "mcall", "ocall", "ctor"):
                yield n

    @property
    def cfg(self):
        """dict id -> Block, plus attributes entry/exit"""
        self._load()
        if self._blocks is None:
            if self._cfg is None:
                return None
            entry, exit_, bl = self._cfg
            blocks = {}
            for b in bl:
                o = Block()
                o.id, o.elems, o.term, o.succs, o.label, o.noret = b
                o.preds = []
                blocks[o.id] = o
            for o in blocks.values():
                for s in o.succs:
                    if s >= 0:
                        blocks[s].preds.append(o.id)
            self._entry, self._exit = entry, exit_
            self._inline_conditions(blocks)
            self._blocks = blocks
        return self._blocks

    def _inline_conditions(self, blocks):
        """`bool c = E; if (c)` is given the control flow of `if (E)`: the branch tests E, and where E is a short-circuit
        expression its operands branch to the targets directly"""
        nodes = self.nodes
        soft = ("icast", "cast", "paren", "clean", "ewc", "bind", "mat", "temp")

        def down(n):
            while n.k in soft and len(n.c) == 1:
                n = n.c[0]
            return n
        uses = None
        for d in list(blocks.values()):
            t = d.term
            if not t or t[2] < 0 or len(d.succs) != 2 or t[0] == "SwitchStmt":
                continue
            cond = down(nodes[t[2]])
            flip = False
            if cond.k == "un" and cond.x[0] == "!" and down(cond.c[0]).k == "ref":
                cond, flip = down(cond.c[0]), True
            if cond.k != "ref" or not cond.x or cond.x[0] != "v" or (cond.t is not None and cond.type not in ("bool", "const bool")):
                continue
            vid = cond.x[2]
            at = None
            for i, e in enumerate(d.elems):
                if isinstance(e, int) and e >= 0 and nodes[e].k == "decl" and any(v.k == "var" and v.x and vid in v.x for v in nodes[e].c):
                    at = i
            if at is None or len(nodes[d.elems[at]].c) != 1:
                continue
            var = nodes[d.elems[at]].c[0]
            if not var.c:
                continue
            inside = set(x.id for x in nodes[t[2]].walk())
            if any(isinstance(e, int) and e not in inside for e in d.elems[at + 1:]):
                continue
            if uses is None:
                uses = {}
                for n in nodes:
                    if n.k == "ref" and n.x and n.x[0] == "v":
                        uses.setdefault(n.x[2], []).append(n)
            if any(n.p is not None and (n.p.k in ("asg", "assign") or n.p.k == "un" and n.p.x[0] in ("&", "++", "--")
                                        or n.p.k in ("bin", "casg") and n.p.x and str(n.p.x[0]) in ("=", "|=", "&=", "^=") and n.p.c[0] is n)
                   for n in uses.get(vid, ())):
                continue
            init = down(var.c[-1])
            if flip:
                d.succs = [d.succs[1], d.succs[0]]
            if not (init.k == "bin" and init.x[0] in ("&&", "||")):
                d.term = [t[0], t[1], init.id]
                continue
            done = self._thread(blocks, d, init, t, down)
            if not done and flip:
                d.succs = [d.succs[1], d.succs[0]]

    def _thread(self, blocks, d, init, t, down):
        nodes = self.nodes
        edges, last = [], None
        for pid in set(d.preds):
            p = blocks[pid]
            if len(p.succs) == 1 and not p.term:
                if last is not None:
                    return False
                last = p
                continue
            if not p.term or p.term[0] != "BinaryOperator" or len(p.succs) != 2 or p.succs[0] == p.succs[1]:
                return False
            i = p.succs.index(d.id)
            cur, val = nodes[p.term[1]], i == 0
            if cur.k != "bin" or cur.x[0] not in ("&&", "||") or val != (cur.x[0] == "||"):
                return False
            while cur is not init:
                up = cur.p
                if up is None:
                    return False
                if up.k == "bin" and up.x[0] in ("&&", "||"):
                    if up.c[0] is cur and val != (up.x[0] == "||"):
                        return False
                elif down(up) is not down(cur):
                    return False
                cur = up
            edges.append((p, i, val))
        if last is None or d.succs[0] == d.succs[1] or -1 in d.succs:
            return False
        new = []
        for s in d.succs:
            o = Block()
            o.id = max(blocks) + 1
            o.elems, o.term, o.succs, o.label, o.noret, o.preds = list(d.elems), 0, [s], d.label, d.noret, []
            blocks[o.id] = o
            blocks[s].preds = [x for x in blocks[s].preds if x != d.id] + [o.id]
            new.append(o)
        for p, i, val in edges:
            p.succs = list(p.succs)
            p.succs[i] = new[0 if val else 1].id
            new[0 if val else 1].preds.append(p.id)
        last.term = [t[0], t[1], init.id]
        last.succs = [new[0].id, new[1].id]
        for o in new:
            o.preds.append(last.id)
        del blocks[d.id]
        return True

    @property
    def entry(self):
        self.cfg
        return self._entry

    @property
    def exit(self):
        self.cfg
        return self._exit


class Program(object):
    def __init__(self, facts):
        self.F = {}
        self.C = {}
        self.E = {}
        self.V = {}
        self.units = sorted(facts)
        for src in self.units:
            with open(facts[src], encoding="utf-8") as f:
                for line in f:
                    k = line[0]
                    if k == "F":
                        i = line.index("\t", 2)
                        key = line[2:i]
                        if key in self.F:
                            continue
                        j = line.index("\t", i + 1)
                        self.F[key] = Function(self, key, json.loads(line[i + 1:j]), line[j + 1:])
                    elif k == "C":
                        _, key, js = line.split("\t", 2)
                        if key not in self.C:
                            self.C[key] = json.loads(js)
                    elif k == "E":
                        _, key, js = line.split("\t", 2)
                        if key not in self.E:
                            self.E[key] = json.loads(js)
                    elif k == "V":
                        _, key, js, body = line.split("\t", 3)
                        m = json.loads(js)
                        kk = key if key not in self.V or self.V[key]["f"] == m["f"] else key + "@" + m["f"]
                        if kk not in self.V:
                            m["body"] = body
                            self.V[kk] = m
        self._over = None
        self._callers = None
        self._byq = None
        self._byname = None

    # -- lookup
    @property
    def byq(self):
        if self._byq is None:
            self._byq = {}
            for f in self.F.values():
                self._byq.setdefault(f.q, []).append(f)
        return self._byq

    @property
    def byname(self):
        if self._byname is None:
            self._byname = {}
            for f in self.F.values():
                self._byname.setdefault(f.name, []).append(f)
        return self._byname

    def fq(self, q):
        return self.byq.get(q, [])

    def fq1(self, q):
        l = self.byq.get(q, [])
        if len(l) != 1:
            raise AnalysisError("anchor %s: %d definitions" % (q, len(l)))
        return l[0]

    # -- class hierarchy
    def bases(self, q):
        seen, st = set(), [q]
        while st:
            c = st.pop()
            if c in seen:
                continue
            seen.add(c)
            if c in self.C:
                st.extend(self.C[c]["bases"])
        return seen

    def derived(self, q):
        if not hasattr(self, "_der"):
            self._der = {}
            for c, m in self.C.items():
                for b in m["bases"]:
                    self._der.setdefault(b, []).append(c)
        seen, st = set(), [q]
        while st:
            c = st.pop()
            if c in seen:
                continue
            seen.add(c)
            st.extend(self._der.get(c, []))
        return seen

    # -- overriding
    @property
    def overriders(self):
        """method key -> all (transitively) overriding definitions' keys"""
        if self._over is None:
            d = {}
            for f in self.F.values():
                for o in f.ov:
                    d.setdefault(o, set()).add(f.key)
            clo = {}
            for k in d:
                seen, st = set(), list(d[k])
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    st.extend(d.get(x, ()))
                clo[k] = seen
            self._over = clo
        return self._over

    def targets(self, node_or_key, virt=True):
        """definitions a call may reach"""
        if isinstance(node_or_key, Node):
            key = node_or_key.callee
            virt = node_or_key.x[1] == 1
        else:
            key = node_or_key
        out = []
        if key in self.F:
            out.append(self.F[key])
        if virt:
            for o in self.overriders.get(key, ()):
                out.append(self.F[o])
        return out

    def callees_of(self, f):
        for k in f.callees:
            if k in self.F:
                yield self.F[k]
            for o in self.overriders.get(k, ()):
                yield self.F[o]

    @property
    def callers(self):
        if self._callers is None:
            d = {}
            for f in self.F.values():
                for k in f.callees:
                    d.setdefault(k, set()).add(f.key)
                    for o in self.overriders.get(k, ()):
                        d.setdefault(o, set()).add(f.key)
            self._callers = d
        return self._callers

    def reach(self, roots):
        """functions reachable from roots through the call graph (virtual calls resolved to all overriders,
        lambdas and address-taken functions count as called where they are mentioned)"""
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            f, par = st.pop()
            if f.key in seen:
                continue
            seen[f.key] = par
            for g in self.callees_of(f):
                if g.key not in seen:
                    st.append((g, f.key))
        return seen

    def can_reach(self, targets):
        """keys of functions that can reach one of the target keys"""
        seen = set(targets)
        st = list(targets)
        while st:
            k = st.pop()
            for c in self.callers.get(k, ()):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return seen

    def functions(self, prefix=None):
        for f in self.F.values():
            if prefix is None or f.file.startswith(prefix):
                yield f


_prog = None


def program(verbose=False):
    global _prog
    if _prog is None:
        cfg, facts = extract(verbose)
        _prog = Program(facts)
        _prog.cfgdir = cfg
        if len(_prog.F) < 3000:
            raise AnalysisError("only %d functions extracted" % len(_prog.F))
    return _prog


if __name__ == "__main__":
    t = time.time()
    p = program(True)
    print(len(p.F), "functions", len(p.C), "classes", len(p.E), "enums", len(p.V), "globals", "%.1fs" % (time.time() - t))
