"""C10: random token types, patterns and values; what they mean is decided by spec/Tokens.tla."""
import json
import build
import tlc as T
from render import rstr

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Covered\n"


def leaf(c, text, lit=None):
    return {"c": c, "fs": [], "ns": [], "text": text, "lit": lit}


SCALARS = {
    "u8": [leaf(str(n), "%du8" % n, ["%d" % n, "%du8" % n, "0x%x" % n] + (["LIM"] if n == 3 else [])) for n in (0, 1, 3, 255)],
    "i64": [leaf(str(n), "%di64" % n, ["%d" % n, "%d_i64" % n] if n >= 0 else None) for n in (-1, 0, 7, 1000)],
    "bool": [leaf(t, t, [t]) for t in ("true", "false")],
    "char": [leaf("c%d" % ord(c), "'%s'" % e, ["'%s'" % e, "'\\u{%x}'" % ord(c)])
             for c, e in (("a", "a"), ("b", "b"), ("'", "\\'"), ("\u20ac", "\\u{20ac}"))],
    "&'static str": [leaf("s:" + s, rstr(s), [rstr(s), 'r#"%s"#' % s] + (["KEY"] if s == "key" else [])) for s in ("", "a", "key", "if")],
    "String": [leaf("s:" + s, "String::from(%s)" % rstr(s)) for s in ("", "a", "key")],
    "&'static [u8]": [leaf("b:" + ".".join(str(x) for x in s), "&%s" % list(s)) for s in (b"", b"ab")],
    "()": [leaf("u", "()", ["()"])],
}
SCALARS["&'a str"] = SCALARS["&'static str"]
WEIGHTED = ["u8"] * 5 + ["bool"] * 3 + ["char"] * 2 + ["&'static str"] * 4 + ["String"] * 2 + ["i64", "()", "&'static [u8]"]


class Universe:
    """Type declarations of one module."""

    def __init__(self, r):
        self.r = r
        self.decls = []
        self.defs = {}
        self.n = 0
        self.lt = None
        self.top = None
        self.generic = False

    def scalar(self):
        if self.lt and self.r.random() < 0.5:
            return ("s", "&'a str")
        return ("s", self.r.choice(WEIGHTED))

    def ty(self, depth):
        """A random type."""
        r = self.r
        x = r.random()
        if depth == 0 or x < 0.45:
            return self.scalar()
        if x < 0.57:
            return ("opt", self.ty(depth - 1))
        if x < 0.63:
            return ("res", self.ty(depth - 1), self.ty(depth - 1))
        if x < 0.8:
            return ("tup", [self.ty(depth - 1) for _ in range(r.choice([1, 2, 2, 3]))])
        if x < 0.84:
            return ("box", self.ty(depth - 1))
        self.lt, lt = None, self.lt
        try:
            return self.user_or_new(depth, x)
        finally:
            self.lt = lt

    def user_or_new(self, depth, x):
        r = self.r
        if self.defs and x < 0.92:
            return ("user", r.choice(sorted(self.defs)))
        return self.user(depth - 1)

    def variant(self, depth, name):
        r = self.r
        kind = r.choice(["unit", "tuple", "tuple", "tuple", "struct", "struct"])
        if kind == "unit":
            return (name, "unit", [], [])
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        tys = [self.ty(depth) for _ in range(n)]
        ns = r.sample(["a", "b", "c", "z", "f0", "f1", "token", "y"], n) if kind == "struct" else []
        return (name, kind, tys, ns)

    def user(self, depth, top=None):
        r = self.r
        name = top or "U%d" % self.n
        if top:
            self.top = top
        self.n += 1
        if r.random() < (0.85 if top else 0.6):
            k = r.choice([2, 3, 4, 5]) if top else r.choice([1, 2, 3])
            vs = [self.variant(depth, v) for v in r.sample(["A", "B", "C", "Id", "Num", "Kw", "Op", "F0"], k)]
            self.defs[name] = ("enum", vs)
        else:
            v = self.variant(depth, name)
            self.defs[name] = ("struct", [v])
        return ("user", name)

    def text(self, t):
        k = t[0]
        if k == "s":
            return t[1]
        if k == "opt":
            return "Option<%s>" % self.text(t[1])
        if k == "res":
            return "Result<%s, %s>" % (self.text(t[1]), self.text(t[2]))
        if k == "box":
            return "Box<%s>" % self.text(t[1])
        if k == "tup":
            return "(%s%s)" % (", ".join(map(self.text, t[1])), "," if len(t[1]) == 1 else "")
        return t[1] + ("<'a>" if self.generic and t[1] == self.top else "")

    def value(self, t):
        r = self.r
        k = t[0]
        if k == "s":
            return dict(r.choice(SCALARS[t[1]]), ty=t)
        if k == "opt":
            if r.random() < 0.3:
                return dict(leaf("None", "None", ["None", "Option::None"]), ty=t)
            return self.node("Some", "Some", "tuple", [t[1]], [], t)
        if k == "res":
            i = r.choice([1, 2])
            return self.node(["Ok", "Err"][i - 1], ["Ok", "Err"][i - 1], "tuple", [t[i]], [], t)
        if k == "box":
            v = self.value(t[1])
            return dict(c=v["c"], fs=v["fs"], ns=v["ns"], text="Box::new(%s)" % v["text"], lit=None, ty=t, opaque=True)
        if k == "tup":
            return self.node("", "", "tuple", t[1], [], t)
        kind, vs = self.defs[t[1]]
        name, sh, tys, ns = r.choice(vs)
        path = "%s::%s" % (t[1], name) if kind == "enum" else name
        return self.node(name, path, sh, tys, ns, t)

    def node(self, c, path, sh, tys, ns, t):
        return self.make(c, path, sh, [self.value(x) for x in tys], ns, t)

    @staticmethod
    def make(c, path, sh, fs, ns, t):
        if sh == "unit":
            text = path
        elif sh == "struct":
            text = "%s { %s }" % (path, ", ".join("%s: %s" % (n, f["text"]) for n, f in zip(ns, fs)))
        else:
            text = "%s(%s)" % (path, ", ".join(f["text"] for f in fs) + ("," if path == "" and len(fs) == 1 else ""))
        return {"c": c, "fs": fs, "ns": ns, "text": text, "lit": None, "ty": t, "path": path, "sh": sh}

    def mutate(self, v):
        """Changes one part."""
        r = self.r
        if not v["fs"] or v.get("opaque") or r.random() < 0.25:
            return self.value(v["ty"])
        i = r.randrange(len(v["fs"]))
        fs = list(v["fs"])
        fs[i] = self.mutate(fs[i])
        return self.make(v["c"], v["path"], v["sh"], fs, v["ns"], v["ty"])

    def pattern(self, v, mark, depth=0):
        """A pattern that matches v: (tree, text)."""
        r = self.r
        x = r.random()
        any_ = {"k": "any", "c": "", "ps": [], "ns": []}
        if x < (0.06 if depth == 0 else 0.22):
            return any_, "_"
        if x < (0.06 if depth == 0 else 0.22) + (mark if depth else 0.05):
            return dict(any_, k="mark"), "<%s>" % self.text(v["ty"])
        if v.get("opaque"):
            return any_, "_"
        if not v["fs"] and "path" not in v:
            if not v["lit"]:
                return any_, "_"
            if v["ty"][1] in ("&'static str", "&'a str") and depth == 0:
                return {"k": "con", "c": v["c"], "ps": [], "ns": []}, v["lit"][0]
            return {"k": "con", "c": v["c"], "ps": [], "ns": []}, r.choice(v["lit"])
        path, sh = v["path"], v["sh"]
        if path and r.random() < 0.1:
            return {"k": "fields", "c": v["c"], "ps": [], "ns": []}, path + r.choice([" { .. }", " {..}"])
        if sh == "unit":
            return {"k": "con", "c": v["c"], "ps": [], "ns": []}, path
        if sh == "struct":
            ns = list(v["ns"])
            r.shuffle(ns)
            keep = len(ns) if r.random() < 0.5 else r.randint(0, len(ns))
            ps, out = [], []
            for n in ns[:keep]:
                t, s = self.pattern(v["fs"][v["ns"].index(n)], mark, depth + 1)
                ps.append(t)
                out.append("%s: %s" % (n, s))
            dots = keep < len(ns) or r.random() < 0.2
            if dots:
                out.append("..")
            text = "%s { %s%s }" % (path, ", ".join(out), "," if out and not dots and r.random() < 0.3 else "")
            return {"k": "fields", "c": v["c"], "ps": ps, "ns": ns[:keep]}, text
        n = len(v["fs"])
        i = j = None
        if r.random() < 0.35:
            i = r.randint(0, n)
            j = r.randint(i, n)
        ps, out = [], []
        for q, f in enumerate(v["fs"]):
            if i is not None and q == i:
                ps.append(dict(any_, k="rest"))
                out.append("..")
            if i is not None and i <= q < j:
                continue
            t, s = self.pattern(f, mark, depth + 1)
            ps.append(t)
            out.append(s)
        if i == n:
            ps.append(dict(any_, k="rest"))
            out.append("..")
        comma = "," if out and (path == "" and len(out) == 1 and out[0] != ".." or r.random() < 0.1) else ""
        return {"k": "con", "c": v["c"], "ps": ps, "ns": []}, "%s(%s%s)" % (path, ", ".join(out), comma)

    def items(self):
        out = []
        for name, (kind, vs) in self.defs.items():
            lt = "<'a>" if name == self.top and self.generic else ""
            body, arms = [], []
            for v, sh, tys, ns in vs:
                path = "%s::%s" % (name, v) if kind == "enum" else v
                vis = "" if kind == "enum" else "pub "
                bind = ["x%d" % i for i in range(len(tys))]
                args = "rt::tok::show(\"%s\", vec![%s])" % (v, ", ".join("rt::tok::r(%s)" % b for b in bind))
                if sh == "unit":
                    body.append(v)
                    arms.append("%s => %s" % (path, args))
                elif sh == "struct":
                    body.append("%s { %s }" % (v, ", ".join("%s%s: %s" % (vis, n, self.text(t)) for n, t in zip(ns, tys))))
                    arms.append("%s { %s } => %s" % (path, ", ".join("%s: %s" % x for x in zip(ns, bind)), args))
                else:
                    body.append("%s(%s)" % (v, ", ".join(vis + self.text(t) for t in tys)))
                    arms.append("%s(%s) => %s" % (path, ", ".join(bind), args))
            out.append("  #[derive(Debug, Clone)] pub %s" % (
                "enum %s%s { %s }" % (name, lt, ", ".join(body)) if kind == "enum"
                else "struct " + name + lt + body[0][len(name):] + (";" if vs[0][1] != "struct" else "")))
            out.append("  impl%s rt::tok::R for %s%s { fn r(self) -> String { match self { %s } } }" % (lt, name, lt, ", ".join(arms)))
        return "\n".join(out) + "\n"


def general(u, t):
    """Patterns that together match everything of the type, in any order."""
    if t[0] == "user" and u.defs[t[1]][0] == "enum":
        res = []
        for name, sh, tys, ns in u.defs[t[1]][1]:
            path = "%s::%s" % (t[1], name)
            mark = {"k": "mark", "c": "", "ps": [], "ns": []}
            if sh == "unit":
                res.append(({"k": "con", "c": name, "ps": [], "ns": []}, path))
            elif sh == "struct":
                o = list(range(len(ns)))
                u.r.shuffle(o)
                res.append(({"k": "fields", "c": name, "ps": [mark] * len(ns), "ns": [ns[i] for i in o]},
                            "%s { %s }" % (path, ", ".join("%s: <%s>" % (ns[i], u.text(tys[i])) for i in o))))
            else:
                res.append(({"k": "con", "c": name, "ps": [mark] * len(tys), "ns": []},
                            "%s(%s)" % (path, ", ".join("<%s>" % u.text(x) for x in tys))))
        u.r.shuffle(res)
        return res
    k = u.r.choice(["any", "mark"])
    return [({"k": k, "c": "", "ps": [], "ns": []}, "_" if k == "any" else "<%s>" % u.text(t))]


def strip(v):
    return {"c": v["c"], "fs": [strip(f) for f in v["fs"]], "ns": v["ns"]}


def module(r, mod):
    u = Universe(r)
    name = r.choice(["T", "Token", "Tok", "TOKEN", "T1"])
    x = r.random()
    alias = ""
    if r.random() < 0.3:
        u.lt = "'a"
    if x < 0.75:
        t = u.user(2, top=name)
        u.generic = "&'a" in repr(u.defs[name])
    else:
        t = r.choice([("tup", [u.ty(1) for _ in range(r.choice([2, 3]))]), u.scalar(), ("opt", u.ty(2)), ("res", u.ty(1), u.ty(1))])
        u.generic = "&'a" in repr(t)
        alias = "  pub type %s%s = %s;\n" % (name, "<'a>" if u.generic else "", u.text(t))
    lt = u.generic
    pool = [u.value(t) for _ in range(r.choice([2, 3, 5, 8]))]
    mark = r.choice([0.15, 0.4, 0.6])
    pats, seen = [], set()
    for _ in range(r.randint(1, 9)):
        p = u.pattern(u.mutate(r.choice(pool)) if r.random() < 0.3 else r.choice(pool), mark)
        if p[1] not in seen or r.random() < 0.1:
            seen.add(p[1])
            pats.append(p)
    cov = general(u, t) if r.random() < 0.5 else [({"k": "any", "c": "", "ps": [], "ns": []}, "_")]
    if r.random() < 0.3:
        # anywhere: what comes later may be out of reach
        for p in cov:
            pats.insert(r.randint(0, len(pats)), p)
    else:
        pats += cov
    n = len(pats)
    names = r.sample(["+", "-", "id", "num", "if", "a", "b", "c", "d", "S", "", " ", "\u20ac", "end", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8"], n)
    vals, vseen = [], set()
    for _ in range(40):
        v = r.choice(pool)
        for _ in range(r.choice([0, 1, 1, 2])):
            v = u.mutate(v)
        if v["text"] not in vseen:
            vseen.add(v["text"])
            vals.append(v)
    vals = vals[:24]
    named = [i for i in range(1, n + 1) if r.random() < 0.8]
    members = [i for i in range(1, n + 1) if r.random() < 0.9 or n == 1]
    one = r.randint(1, n)

    def alt(i, lead, act):
        b = i in named
        mut = r.choice(["", "", "mut "])
        return "%s%s => rt::act(%d, vec![%s%s])" % (
            lead, "<%stok:%s>" % (mut, rstr(names[i - 1])) if b else rstr(names[i - 1]), i, act,
            ("rt::tok::r({ let _ = &mut tok; tok })" if mut else "rt::tok::r(tok)") if b else "")
    prods = ["=> rt::act(%d, vec![])" % (n + 1)] + [alt(i, "<l:List> ", "l, ") for i in members]
    r.shuffle(prods)
    items = ["    enum %s%s {\n%s    }\n" % (name, "<'a>" if lt else "", "".join("      %s => %s,\n" % (rstr(a), p[1]) for a, p in zip(names, pats))),
             "    pub List: String = {\n      %s,\n    };\n" % ",\n      ".join(prods),
             "    pub One: String = { %s };\n" % alt(one, "", "")]
    r.shuffle(items)
    text = ("mod %s {\n  use parsegen::parser;\n  pub const LIM: u8 = 3;\n  pub const KEY: &'static str = \"key\";\n%s%s  pub fn mk(t: u32, _: u64) -> %s%s { match t {\n%s    _ => unreachable!() } }\n"
            "  parser! {\n%s  }\n  pub fn run(e: usize, feed: rt::Feed) -> rt::Ret {\n    match e {\n"
            "      1 => rt::conv!(List::parse(rt::It::new(feed, mk))),\n      2 => rt::conv!(One::parse(rt::It::new(feed, mk))),\n"
            "      _ => unreachable!(),\n    }\n  }\n}\n"
            % (mod, u.items(), alias, name, "<'static>" if lt else "", "".join("      %d => %s,\n" % (i, v["text"]) for i, v in enumerate(vals, 1)), "".join(items)))
    return {"text": text, "names": names, "pats": [p[0] for p in pats], "vals": [strip(v) for v in vals],
            "named": named, "members": members, "one": one}


def check(p, scale):
    p.build()
    r = p.rng("tokens")
    ms = []
    for i in range(scale(p, 700, 5000)):
        m = module(r, "g%d" % (i + 1))
        m.update(id=i + 1)
        ms.append(m)
    p.grammars = ms
    p.compile(ms, "m", per=12)
    for m in ms:
        if m["id"] not in p.accepted | p.skipped:
            p.bad.append({"g": None, "id": m["id"], "why": "patterns could not be used: " + p.rejected[m["id"]], "text": m["text"]})
    jobs = []
    for m in ms:
        if m["id"] in p.accepted:
            n = len(m["vals"])
            ins = [[i] for i in range(1, n + 1)]
            jobs += [(m, e, x) for x in ins for e in (1, 2)]
            for _ in range(8):
                jobs.append((m, 1, [r.randint(1, n) for _ in range(r.randint(2, 7))]))
    recs = p.run(jobs)
    for (m, e, x), rec in zip(jobs, recs):
        ret = {k: rec["ret"][k] for k in "kvf"}
        m.setdefault("tr", []).append({"e": e, "in": x, "acts": [a for a in rec["ev"] if a], "ret": ret})
    work = [{k: m[k] for k in ("id", "names", "pats", "vals", "named", "members", "one", "tr")} for m in ms if m.get("tr")]
    run = T.tlc(p.sc, "tokens", "Tokens", CFG, {"work.ndjson": "".join(json.dumps(w) + "\n" for w in work)})
    T.check(run, "Tokens")
    p.count(run)
    if sum(x["n"] for x in run.records if "done" in x) != len(jobs):
        raise build.ToolError("TLC did not get through all runs")
    for x in run.records:
        if "why" in x:
            m = ms[x["id"] - 1]
            p.bad.append({"g": None, "why": x["why"], "trace": m["tr"][x["tid"] - 1], "spec": x["spec"], "text": m["text"]})
    p.traces += len(jobs)
    p.notes["token_types"] = len(ms)
    p.notes["terminals"] = sum(len(m["pats"]) for m in ms)
    p.notes["values"] = sum(len(m["vals"]) for m in ms)
    p.samples = [{"source": m["text"], "run": m.get("tr", [None])[0]} for m in ms[::max(1, len(ms) // 4)]]
    p.log("%d runs of %d token types: %d states, %d disagreements" % (len(jobs), len(ms), run.states, len(p.bad)))
