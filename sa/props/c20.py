"""C20: solver configurations are read back with the fields they are written with."""
import itertools
import json
import os
import re

from ..facts import REPO, AnalysisError
from ..flow import strip
from ..interp import UNK, Obj, Stream, GiveUp
from ..machine import Machine, Rec, Ref, Thrown

EXPLANATION = (
    "Abstract interpretation of SolverConfig::load, toJSON and solverConfigsJSON over opaque tokens: for every key of a configuration "
    "file (the documented ones and every string the loader compares) and every kind of value, the loader's effect on the properties is "
    "derived and fed to the writer's abstract output, which must be well-formed JSON giving each key the token that was read under it; "
    "values of the wrong kind, unknown keys and missing required fields must end in ConfigException on every path; every accessor must "
    "return what its setter stored and no other accessor may change.")

N = "MiniZinc::"
SC = N + "SolverConfig"


def sl(s):
    return Obj("StringLit", v=Obj("str", c_str=s, size=len(s), text=s))


def il(i):
    iv = Obj("IntVal", toInt=i, isFinite=True)
    return Obj("IntLit", v=iv)


def bl(b):
    return Obj("BoolLit", v=b)


def fl(x):
    return Obj("FloatLit", v=Obj("FloatVal", toDouble=x, isFinite=True))


def al(elems, dims=1, cols=None, nested=None):
    o = Obj("ArrayLit", elems=elems, size=len(elems), empty=not elems, dims=dims)
    if dims == 2:
        rows = len(elems) // cols if cols else 0
        mx = [rows, cols or 0]
        o.at["min"] = lambda i: 1
        o.at["max"] = lambda i: mx[i] if isinstance(i, int) and i < 2 else UNK
    else:
        o.at["min"] = lambda i: 1
        o.at["max"] = lambda i: len(elems)
    o.at["nested"] = nested
    return o


def table(rows):
    """two-dimensional array of literals; as JSON value an array of arrays"""
    cols = len(rows[0]) if rows else 0
    flat = [x for r in rows for x in r]
    return al(flat, 2 if rows else 1, cols), al([al(r) for r in rows], 1, nested=(flat, cols))


class Loader(object):
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.load = [f for f in self.prog.fq(SC + "::load") if f.cfg is not None]
        if len(self.load) != 1:
            raise AnalysisError("SolverConfig::load not found")
        self.load = self.load[0]
        self.tojson = [f for f in self.prog.fq(SC + "::toJSON") if f.cfg is not None][0]
        self.consts = {}
        for q, e in self.prog.E.items():
            if q.startswith(SC):
                pass
        self.mach = None
        self.model = None
        self.json = False

    def machine(self):
        hooks = {
            N + "FileUtils::file_path": lambda m, r, a: self.pre("P", a),
            N + "FileUtils::find_executable": lambda m, r, a: self.pre("X", a),
            N + "FileUtils::dir_name": lambda m, r, a: self.pre("D", a),
            N + "JSONParser::fileIsJSON": lambda m, r, a: self.json,
            N + "JSONParser::parse": lambda m, r, a: UNK,
            N + "JSONParser::coerceArray": lambda m, r, a: self.coerce(m.rv(a[1])),
            N + "parse": lambda m, r, a: self.model,
            SC + "s::defaultSolver": lambda m, r, a: self.default_id,
        }
        m = Machine(self.prog, hooks)
        m.callhook = self.hook
        m.strict = True
        return m

    def pre(self, p, a, e=None):
        v = a[0]
        while isinstance(v, Ref):
            v = v.get()
        if isinstance(v, str):
            return p + v + e if e else p + "(" + v + ")"
        return UNK

    def coerce(self, o):
        if isinstance(o, Obj) and o.at.get("nested"):
            flat, cols = o.at["nested"]
            return al(flat, 2, cols) if flat else o
        return o

    def hook(self, m, n, env, fn):
        if n.k == "new":
            if n.x and str(n.x[-1]) == N + "Model":
                return (self.model,)
            return None
        if n.k == "ctor":
            cls = (n.cq or "").rsplit("::", 1)[0]
            if cls in (N + "GCLock", N + "Env", N + "JSONParser", N + "Location", N + "TypeInst", N + "Type"):
                return (Obj(cls.split("::")[-1]),)
        return None

    def item(self, key, val):
        o = Obj("AssignI", id=key)
        cell = [val]

        def e(*a):
            if a:
                cell[0] = a[0]
            return cell[0]
        o.at["e"] = e
        return o

    def read(self, fields, json_mode):
        """outcomes of loading the fields: list of ('ok', Rec) / ('throw', Thrown)"""
        def start(m):
            self.model = Obj("Model", items=[self.item(k, v[1] if isinstance(v, tuple) and json_mode else
                                                       v[0] if isinstance(v, tuple) else v) for k, v in fields])
            self.json = json_mode
            return m.rv(m.call(self.load, ["file"]))
        m = self.machine()
        r = m.runs(start)
        self.funcs = getattr(self, "funcs", set()) | m.funcs
        return r

    def sread(self, fields, json_mode):
        """the same, an empty list when undecided"""
        try:
            return self.read(fields, json_mode)
        except GiveUp as e:
            self.ctx.skip("load: %s" % e)
            return []

    def write(self, sc, default_id=""):
        self.default_id = default_id

        def start(m):
            return m.rv(m.call(self.tojson, [Obj("SolverConfigs")], sc))
        m = self.machine()
        r = m.runs(start)
        self.funcs = getattr(self, "funcs", set()) | m.funcs
        return r


def dup(pairs):
    ks = [k for k, _ in pairs]
    if len(set(ks)) != len(ks):
        raise ValueError("the key %s is written twice" % [k for k in ks if ks.count(k) > 1][0])
    return dict(pairs)


def tok(k):
    """opaque text of a field, with the characters JSON forbids inside a string"""
    return "<" + k + "\"\\>"


def documented():
    """key -> (kinds, default text) from the reference manual"""
    p = os.path.join(REPO, "docs/en/fzn-spec.rst")
    out = {}
    if not os.path.exists(p):
        return out
    txt = open(p, encoding="utf-8").read()
    i = txt.find("Solver Configuration Files")
    for m in re.finditer(r"^- ``(\w+)`` \(([^)]*)\)", txt[i:], re.M):
        desc = m.group(2)
        d = re.search(r"default (?:``(.*?)``|(empty))", desc)
        out[m.group(1)] = (desc.split(",")[0].strip(), (d.group(1) or d.group(2)) if d else None, re.findall(r"``(\w+)``", desc.split("options")[1]) if
                           "options" in desc else [])
    return out


class C20(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.l = Loader(ctx)
        self.base = [("id", sl(tok("id"))), ("name", sl(tok("name"))), ("version", sl(tok("version")))]

    # ---- values of each kind
    def values(self, key):
        t = tok(key)
        return {
            "string": sl(t),
            "int": il(41),
            "empty string": sl(""),
            "bool": bl(True),
            "float": fl(4.5),
            "list of strings": al([sl(t), sl(t + "2")]),
            "list of other things": al([sl(t), il(3)]),
            "list of list of strings": table([[sl(t), sl(t + "d"), sl("int:1:5"), sl("3")], [sl(t + "2"), sl(t + "e"), sl("string"), sl("")]]),
            "list of list of other things": table([[il(1), il(2), il(3), il(4)]]),
            "table with a wrong first column": table([[il(1), sl("d"), sl("bool"), sl("false")]]),
            "table with a wrong description": table([[sl(t), bl(True), sl("bool"), sl("false")]]),
            "table with a wrong type column": table([[sl(t), sl("d"), il(3), sl("false")]]),
            "table with a wrong default": table([[sl(t), sl("d"), sl("int"), il(4)]]),
            "table with an unknown type": table([[sl(t), sl("d"), sl("colour"), sl("red")]]),
            "table with one column": table([[sl(t)], [sl(t + "2")]]),
            "table with five columns": table([[sl(t), sl("d"), sl("int"), sl("4"), sl("5")]]),
        }

    def with_key(self, key, v):
        b = [x for x in self.base if x[0] != key]
        return b + [(key, v)]

    def literals(self):
        """string literals in the loader and the functions it runs"""
        out = set()
        for k in self.l.funcs | {self.l.load.key}:
            f = self.ctx.prog.F.get(k)
            if f is not None and f.file == self.l.load.file:
                for n in f.walk():
                    if n.k == "str" and isinstance(n.x[0], str) and re.match(r"^\w+$", n.x[0]):
                        out.add(n.x[0])
        return out

    def kinds(self):
        ctx, l = self.ctx, self.l
        docs = documented()
        ctx.count("documented configuration fields", len(docs))
        try:
            r = l.read(self.base, True)
        except GiveUp as e:
            ctx.skip("load: %s" % e)
            self.plain = None
            return
        if not all(k == "ok" and isinstance(v, Rec) for k, v in r):
            ctx.bad("base", l.load.loc(), "a configuration with id, name and version is not loaded (%s)" % r)
            return
        self.plain = r[0][1]
        cand = sorted(set(docs) | self.literals())
        self.accepted = {}
        for key in cand:
            for jm in (True, False):
                acc, und = set(), set()
                for kind, v in self.values(key).items():
                    try:
                        res = l.read(self.with_key(key, v), jm)
                    except GiveUp as e:
                        ctx.skip("load %s with %s: %s" % (key, kind, e))
                        und.add(kind)
                        continue
                    oks = [x for k, x in res if k == "ok"]
                    th = [x for k, x in res if k == "throw"]
                    ctx.check(all(t.cls == N + "ConfigException" for t in th), "load-exc:%s:%s" % (key, kind), l.load.loc(),
                              "a %s for %s is rejected with %s instead of a configuration error" % (kind, key, [t.cls for t in th][:1]))
                    # a number may be rejected for its size
                    ctx.check(not (oks and th) or kind == "int", "load-both:%s:%s" % (key, kind), l.load.loc(),
                              "a %s for %s is sometimes accepted and sometimes rejected" % (kind, key))
                    if oks:
                        if not jm and kind not in self.KINDS and (docs.get(key) or ("",))[0] != "list of list of strings" \
                                and kind != "list of other things":
                            continue   # a two-dimensional literal of a .dzn file is the list of its elements
                        acc.add(kind)
                        self.accepted.setdefault(key, {}).setdefault(kind, {})[jm] = oks[0]
                if not acc and key not in docs:
                    break
                self.judge(key, acc, docs.get(key), und)
        # unknown keys
        for jm in (True, False):
            res = l.sread(self.base + [("noSuchKey", sl("x"))], jm)
            ctx.check(all(k == "throw" for k, v in res), "unknown", l.load.loc(), "an unknown configuration field is accepted")
        for f, _ in self.base:
            res = l.sread([x for x in self.base if x[0] != f], True)
            ctx.check(all(k == "throw" and v.cls == N + "ConfigException" for k, v in res), "required:" + f, l.load.loc(),
                      "a configuration without %s is accepted" % f)
        ctx.count("keys the loader accepts", len(self.accepted))

    KINDS = ("string", "int", "bool", "float", "list of strings")
    TABLE_BAD = ("list of list of other things", "table with a wrong first column", "table with a wrong description",
                 "table with a wrong type column", "table with a wrong default", "table with an unknown type", "table with one column",
                 "table with five columns", "list of other things")

    def judge(self, key, acc, doc, und):
        ctx, l = self.ctx, self.l
        if doc is not None:
            want = {"list of list of strings"} if doc[0] == "list of list of strings" else set(doc[0].split(" or "))
            if want == {"list of strings"} or want == {"string", "list of strings"}:
                pass
        else:
            want = None
        enumd = doc is not None and doc[2]
        if "empty string" in acc:
            acc.discard("empty string")
            ctx.check(not enumd, "wrong-kind:%s:empty" % key, l.load.loc(), "%s accepts an empty string although only %s are documented" % (key, enumd))
        for kind in sorted(acc):
            if kind in self.TABLE_BAD:
                ctx.bad("wrong-kind:%s:%s" % (key, kind), l.load.loc(), "%s accepts a %s" % (key, kind))
            elif want is not None:
                ctx.check(kind in want, "wrong-kind:%s:%s" % (key, kind), l.load.loc(),
                          "%s accepts a %s although it is documented as %s" % (key, kind, doc[0]))
        if want is not None and not enumd:
            for w in want - und:
                ctx.check(w in acc, "right-kind:%s:%s" % (key, w), l.load.loc(), "%s is documented as %s but a %s is rejected" % (key, doc[0], w))
        if want is None:
            ctx.check(und or len([k for k in acc if k not in self.TABLE_BAD]) == 1, "one-kind:" + key, l.load.loc(),
                      "%s accepts several kinds of values: %s" % (key, sorted(acc)))

    # ---- written form
    def parse(self, sc, what, default_id=""):
        ctx, l = self.ctx, self.l
        try:
            res = l.write(sc, default_id)
        except GiveUp as e:
            ctx.skip("toJSON of %s: %s" % (what, e))
            return None
        if len(res) != 1 or res[0][0] != "ok" or not isinstance(res[0][1], str):
            ctx.skip("toJSON of %s is not decided" % what)
            return None
        try:
            js = json.loads(res[0][1], object_pairs_hook=dup)
        except ValueError as e:
            ctx.bad("json:" + what, l.tojson.loc(), "the listing of a configuration with %s is not valid JSON: %s" % (what, e))
            return None
        return js

    DEPRECATED = {"supportsMzn": "MZN", "supportsFzn": "FZN", "supportsNL": "NL"}

    def roundtrip(self):
        ctx, l = self.ctx, self.l
        docs = documented()
        base = self.parse(self.plain, "only the required fields")
        if base is None:
            return
        for f, _ in self.base:
            ctx.check(base.get(f) == tok(f), "rt:" + f, l.tojson.loc(), "%s is listed as %r" % (f, base.get(f)))
        for key, (kind, dflt, opts) in docs.items():
            if dflt is None or key in self.DEPRECATED:
                continue
            want = {"true": True, "false": False, "empty": [], '""': ""}.get(dflt, int(dflt) if dflt.isdigit() else dflt)
            got = base.get(key, [] if want == [] else "" if want == "" else None)
            if key in base or want in ([], ""):
                ctx.check(got == want and type(got) == type(want), "default:" + key, l.tojson.loc(),
                          "%s is documented to default to %s but a configuration without it has %r" % (key, dflt, got))
        for key, kinds in sorted(self.accepted.items()):
            for kind, by in sorted(kinds.items()):
                if kind in self.TABLE_BAD or kind == "empty string":
                    continue
                for jm, sc in by.items():
                    js = self.parse(sc, "%s (%s)" % (key, kind))
                    if js is None:
                        continue
                    t = tok(key)
                    if key in self.DEPRECATED:
                        ctx.check(js.get("inputType") == self.DEPRECATED[key], "rt:" + key, l.load.loc(),
                                  "%s = true gives the input type %r" % (key, js.get("inputType")))
                        continue
                    want = {"string": t, "int": 41, "bool": True, "list of strings": [t, t + "2"],
                            "list of list of strings": [[t, t + "d", "int:1:5", "3"], [t + "2", t + "e", "string", ""]]}.get(kind)
                    if key == "executable" and isinstance(want, list) and js.get(key) == want[0]:
                        ctx.bad("executable-flags", l.tojson.loc(), "the flags given with the executable (list form) are not listed")
                        continue
                    ctx.check(js.get(key) == want, "rt:%s:%s" % (key, kind), l.tojson.loc(),
                              "the field %s read as %r (%s) is listed as %r" % (key, want, kind, js.get(key)))
                    other = {k: v for k, v in js.items() if k not in (key, "extraInfo")}
                    ref = {k: v for k, v in base.items() if k not in (key, "extraInfo")}
                    ctx.check(other == ref, "rt-other:%s:%s" % (key, kind), l.tojson.loc(),
                              "reading %s also changes %s" % (key, sorted(k for k in set(other) | set(ref) if other.get(k) != ref.get(k))))
                    ex = js.get("extraInfo", {})
                    if key == "mznlib":
                        ctx.check(t in str(ex.get("mznlib", "")), "extra:mznlib", l.tojson.loc(), "the resolved library is listed as %r" % ex.get("mznlib"))
                        ctx.check("executable" not in ex, "extra:mznlib2", l.tojson.loc(), "the library is listed as an executable")
                    if key == "executable":
                        ctx.check(t in str(ex.get("executable", "")), "extra:executable", l.tojson.loc(),
                                  "the resolved executable is listed as %r" % ex.get("executable"))
                        ctx.check("mznlib" not in ex, "extra:executable2", l.tojson.loc(), "the executable is listed as a library")

    def bools(self):
        """true and false are told apart for every bool; every input type; lists of each length; every flag type"""
        ctx, l = self.ctx, self.l
        for key, kinds in sorted(self.accepted.items()):
            if "bool" in kinds and key not in self.DEPRECATED:
                for b in (True, False):
                    res = l.sread(self.base + [(key, bl(b))], True)
                    if len(res) == 1 and res[0][0] == "ok":
                        js = self.parse(res[0][1], "%s = %s" % (key, str(b).lower()))
                        if js is not None:
                            ctx.check(js.get(key) is b, "bool:%s:%s" % (key, b), l.tojson.loc(), "%s = %s is listed as %r" % (key, b, js.get(key)))
            if "list of strings" in kinds:
                for k in (0, 1, 3):
                    ts = [tok(key) + str(i) for i in range(k)]
                    if key == "executable" and k != 1:
                        continue
                    res = l.sread(self.base + [(key, al([sl(x) for x in ts]))], True)
                    if len(res) == 1 and res[0][0] == "ok":
                        js = self.parse(res[0][1], "%s (list of %d)" % (key, k))
                        if js is not None:
                            got = js.get(key, [])
                            ctx.check(got == ts or (key == "executable" and k == 1 and got == ts[0]), "list:%s:%d" % (key, k), l.tojson.loc(),
                                      "%s with %d entries is listed as %r" % (key, k, got))
        docs = documented()
        for o in (docs.get("inputType") or (0, 0, []))[2]:
            for s in (o, o.lower()):
                res = l.sread(self.base + [("inputType", sl(s))], True)
                ok = len(res) == 1 and res[0][0] == "ok"
                if not res:
                    continue
                ctx.check(ok, "inputType:" + s, l.load.loc(), "the documented input type %s is rejected" % s)
                if ok:
                    js = self.parse(res[0][1], "input type " + s)
                    if js is not None:
                        ctx.check(js.get("inputType") == o, "inputType-w:" + o, l.tojson.loc(), "the input type %s is listed as %r" % (o, js.get("inputType")))
        seen = {}
        for o in (docs.get("inputType") or (0, 0, []))[2]:
            res = l.sread(self.base + [("inputType", sl(o))], True)
            if len(res) == 1 and res[0][0] == "ok":
                seen.setdefault(res[0][1].at.get("_inputType"), []).append(o)
        ctx.check(all(len(v) == 1 for v in seen.values()), "inputType-distinct", l.load.loc(), "several input types are read as the same one: %s" % seen)
        for ty, rng in itertools.product(("bool", "int", "float", "string", "opt"), ((), ("1", "2"), ("a b",), ("x", "y", "z"))):
            if (ty == "opt") == (not rng) or (ty == "string" and rng) or (ty in ("int", "float") and rng and len(rng) != 2) or \
                    (ty == "bool" and rng and len(rng) != 2):
                continue
            if ty in ("int", "float") and rng:
                rng = ("1", "2")
            spec = ":".join((ty,) + rng)
            for d in ("7", ""):
                row = [sl("-f"), sl("desc"), sl(spec), sl(d)]
                res = l.sread(self.base + [("extraFlags", table([row]))], True)
                if len(res) == 1 and res[0][0] == "ok":
                    js = self.parse(res[0][1], "a flag of type " + spec)
                    if js is not None:
                        ctx.check(js.get("extraFlags") == [["-f", "desc", spec, d]], "flag:%s:%s" % (spec, d), l.tojson.loc(),
                                  "the flag type %s is listed as %r" % (spec, js.get("extraFlags")))
        # short tables: type and default are filled in
        for row, want in (([sl("-f"), sl("desc")], ["-f", "desc", "bool", "false"]), ([sl("-f"), sl("desc"), sl("int")], ["-f", "desc", "int", "0"]),
                          ([sl("-f"), sl("desc"), sl("float")], ["-f", "desc", "float", "0.0"]),
                          ([sl("-f"), sl("desc"), sl("string")], ["-f", "desc", "string", ""])):
            res = l.sread(self.base + [("extraFlags", table([row]))], True)
            if len(res) == 1 and res[0][0] == "ok":
                js = self.parse(res[0][1], "a flag with %d columns" % len(row))
                if js is not None:
                    ctx.check(js.get("extraFlags") == [want], "flag-default:%d:%s" % (len(row), want[2]), l.tojson.loc(),
                              "a flag given as %d columns is listed as %r" % (len(row), js.get("extraFlags")))
        # default solver mark
        for did, want in (("", False), (tok("id"), True), (tok("other"), False)):
            js = self.parse(self.plain, "default solver %r" % did, did)
            if js is not None:
                ctx.check(bool(js.get("extraInfo", {}).get("isDefault")) == want, "default-mark:%s" % want, l.tojson.loc(),
                          "with default solver %r the solver is marked default: %r" % (did, js.get("extraInfo", {}).get("isDefault")))

    def pairs(self):
        """a field keeps its value whatever other field is read before or after it"""
        ctx, l = self.ctx, self.l
        vals = {}
        for key, kinds in sorted(self.accepted.items()):
            if key in dict(self.base) or key in self.DEPRECATED or key == "inputType":
                continue
            for kind in self.KINDS + ("list of list of strings",):
                if kind in kinds and True in kinds[kind]:
                    v = self.values(key)[kind]
                    vals.setdefault(key, []).append(v)
                    if kind == "bool":
                        vals[key].append(bl(False))
        for a, b in itertools.permutations(sorted(vals), 2):
            for va, vb in itertools.product(vals[a], vals[b]):
                try:
                    one = [l.read(self.base + [x], True) for x in ((a, va), (b, vb))]
                    both = l.read(self.base + [(a, va), (b, vb)], True)
                except GiveUp as e:
                    ctx.skip("load %s and %s: %s" % (a, b, e))
                    continue
                if any(len(r) != 1 or r[0][0] != "ok" for r in one):
                    continue
                want = dict(self.plain.at)
                for r in one:
                    want.update({k: v for k, v in r[0][1].at.items() if repr(v) != repr(self.plain.at[k])})
                got = both[0][1].at if len(both) == 1 and both[0][0] == "ok" else {}
                d = sorted(k for k in want if repr(got.get(k)) != repr(want[k]))
                ctx.check(not d, "pair:%s:%s" % (a, b), l.load.loc(), "reading %s and then %s gives different %s than each alone" % (a, b, d))

    # ---- accessors
    def accessors(self):
        ctx, prog, l = self.ctx, self.ctx.prog, self.l
        cls = prog.C.get(SC)
        if cls is None:
            raise AnalysisError("class SolverConfig not found")
        meths = {}
        for f in prog.F.values():
            if f.cls == SC and f.cfg is not None and not f.static and not f.islambda:
                meths.setdefault(f.name, []).append(f)
        fields = {f[0]: f[1] for f in cls["fields"]}
        getters = {m: [f for f in fs if not f.params] for m, fs in meths.items()}
        getters = {m: fs[0] for m, fs in getters.items() if fs and m != "SolverConfig"}
        sets = 0

        def state(tag):
            r = Rec(SC)
            for f, t in fields.items():
                if "vector" in t:
                    r.at[f] = [tag + f + "1", tag + f + "2"]
                elif "basic_string" in t:
                    r.at[f] = tag + f
                elif t == "bool":
                    r.at[f] = False
                else:
                    r.at[f] = 1
            return r

        def get(m, g, r):
            v = m.rv(m.call(g, [], r))
            return v
        for m, g in sorted(getters.items()):
            r = state("a")
            mach = l.machine()
            try:
                v = get(mach, g, r)
            except GiveUp:
                continue
            f = "_" + m
            if f in fields:
                ctx.check(v == r.at[f] or v is r.at[f], "get:" + m, g.loc(), "%s() returns something else than the property %s" % (m, m))
                if fields[f] == "bool":
                    r.at[f] = True
                    ctx.check(get(l.machine(), g, r) is True, "get:" + m, g.loc(), "%s() returns something else than the property %s" % (m, m))
        for m, fs in sorted(meths.items()):
            if m not in getters:
                continue
            for s in fs:
                if len(s.params) != 1:
                    continue
                t = s.params[0][1]
                r = state("a")
                val = ["n1", "n2"] if "vector" in t else "new" if "basic_string" in t else True if t == "bool" else 3
                mach = l.machine()
                try:
                    before = {x: get(mach, g, r) for x, g in getters.items() if x != "toJSON"}
                    before = {x: (list(v) if isinstance(v, list) else v) for x, v in before.items()}
                    mach.call(s, [val], r)
                    after = {x: get(mach, g, r) for x, g in getters.items() if x != "toJSON"}
                except GiveUp as e:
                    ctx.skip("setter %s: %s" % (m, e))
                    continue
                sets += 1
                want = val
                allowed = {m}
                if m == "executable" and isinstance(val, list):
                    want = val[0]
                    allowed.add("passFlags")
                    ctx.check(after.get("passFlags") == val[1:], "set-pass", s.loc(), "setting the executable as a list loses its flags: %r" % after.get("passFlags"))
                ctx.check(after[m] == want, "set:" + m, s.loc(), "%s(v) does not change what %s() returns" % (m, m))
                ch = [x for x in after if x not in allowed and after[x] != before[x]]
                ctx.check(not ch, "set-other:" + m, s.loc(), "%s(v) also changes %s" % (m, ch))
        ctx.count("setter and accessor pairs", sets)

    # ---- the list of all configurations
    def listing(self):
        ctx, prog, l = self.ctx, self.ctx.prog, self.l
        fs = [f for f in prog.fq(SC + "s::solverConfigsJSON") if f.cfg is not None]
        if len(fs) != 1:
            ctx.skip("solverConfigsJSON not found")
            return
        fn = fs[0]
        for pattern in itertools.chain.from_iterable(itertools.product((0, 1), repeat=k) for k in (0, 1, 2, 3)):
            recs = []
            for i, internal in enumerate(pattern):
                fields = [("id", sl("id%d" % i)), ("name", sl("n%d" % (9 - i))), ("version", sl("1"))]
                if internal:
                    fields.append(("tags", al([sl("cp"), sl("__internal__")])))
                res = l.sread(fields, True)
                if len(res) != 1 or res[0][0] != "ok":
                    return
                recs.append(res[0][1])
            l.default_id = ""
            cfgs = Rec(SC + "s", _solvers=recs, _tags={}, _tagDefault={}, _defaultSolver="", _mznlibDir="", _solverPath=[], _solverDefaultOptions={})
            try:
                res = l.machine().runs(lambda m: m.rv(m.call(fn, [], cfgs)))
            except GiveUp as e:
                ctx.skip("listing of %d configurations: %s" % (len(pattern), e))
                return
            if len(res) != 1 or res[0][0] != "ok" or not isinstance(res[0][1], str):
                ctx.skip("listing of %d configurations is not decided" % len(pattern))
                return
            txt = res[0][1]
            want = sorted("id%d" % i for i, internal in enumerate(pattern) if not internal)
            try:
                js = json.loads(txt)
                got = sorted(x["id"] for x in js)
            except (ValueError, KeyError, TypeError) as e:
                ctx.bad("listing", fn.loc(), "the listing of %d configurations (%s internal) is not a JSON array of objects: %s" % (len(pattern), sum(pattern), e))
                continue
            ctx.check(got == want, "listing", fn.loc(), "of the configurations %s (1: internal) the listing contains %s" % (pattern, got))


def check(ctx):
    c = C20(ctx)
    c.kinds()
    if c.plain is not None:
        c.roundtrip()
        c.bools()
        c.pairs()
        c.listing()
        ctx.need("keys the loader accepts", 15)
    c.accessors()
    ctx.need("setter and accessor pairs", 10)
