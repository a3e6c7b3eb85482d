"""Renders a grammar as Rust source: a module with a `parser!` invocation whose semantic actions,
token iterator and results are observable (harness/src/lib.rs)."""
import random

# result types: (type, is it cheap for very long inputs)
TYPES = [
    "V", "W", "X", "rt::V", "rt::other::V", "rt::other::W", "Box<V>", "Box<W>", "(V,)", "(W,)",
    "Option<V>", "Option<W>", "Option<rt::other::V>", "Result<V, u8>", "Vec<V>", "Vec<W>",
    "Vec<Option<V>>", "[V; 1]", "String", "&'static str", "rt::other::G<'static, V>",
    "rt::other::G<'static, W>", "Option<Box<V>>", "Box<Option<V>>", "V", "V",
]

# types that are easily taken for one another
ALIKE = [
    ["V", "rt::other::V"], ["W", "rt::other::W", "V"], ["rt::V", "V", "rt::other::V"],
    ["Option<V>", "Option<rt::other::V>", "Option<W>"], ["Vec<V>", "Vec<W>", "Vec<rt::other::V>"],
    ["Box<V>", "Box<rt::other::V>", "V"], ["(V,)", "(W,)", "V"], ["[V; 1]", "[W; 1]", "[rt::other::V; 1]"],
    ["String", "&'static str", "std::string::String"], ["Option<V>", "std::option::Option<V>"],
    ["rt::other::G<'static, V>", "rt::other::G<'static, W>", "rt::other::G<'static, rt::other::V>"],
    ["Result<V, u8>", "Result<W, u8>", "Option<V>"], ["Option<Box<V>>", "Box<Option<V>>", "Option<V>", "Box<V>"],
    ["Vec<Vec<V>>", "Vec<V>", "Vec<Vec<W>>"], ["rt::Sel<V, 1>", "rt::Sel<V, 2>", "rt::Sel<W, 1>"],
    ["<V as rt::Proj>::Out", "<W as rt::Proj>::Out"], ["Box<dyn rt::Shown>", "Box<V>"], ["rt::F<fn(V) -> W>", "rt::F<fn(W) -> V>"],
]

# the same, with lifetimes
ALIKE_LT = [["&'a str", "&'b str"], ["&'a str", "&'static str"], ["rt::other::G<'a, V>", "rt::other::G<'b, V>"],
            ["Option<&'a str>", "Option<&'b str>", "Option<&'static str>"], ["Box<&'b str>", "Box<&'a str>"],
            ["rt::other::G<'a, &'b str>", "rt::other::G<'b, &'a str>", "rt::other::G<'a, &'a str>"]]

NAME_POOL = ["+", "-", "*", "/", "(", ")", "[", "]", "{", "}", ";", ":", "=", "==", "if", "else",
             "while", "id", "num", "str", "fn", "let", "<", ">", "=>", "::", ".", "..", "&", "|",
             "a", "b", "c", "x", "t1", "t2", "t3", "end", "EOF", "end of input", "end-of-input", "<end of input>", "$", "error", "eof", "$end", "\\", "\"", "'",
             "A", "B", "N1", "Expr", "expr", "a ", " a", "A ", "AA",
           "a terminal of a long name that begins like some other terminal of a long name: 1",
           "a terminal of a long name that begins like some other terminal of a long name: 2",
           "λ", "tab\t", "", " ", "S", "S1", "E", "0", "{}", "{0}", "%s", "#", "\u20ac"]
NT_POOL = ["S", "S1", "S11", "A", "A1", "B", "B1", "C", "Expr", "Expr1", "Term", "Factor", "List",
           "Stmt", "Block", "Opt", "Tail", "X1", "Program", "Item", "Items", "K", "L", "M", "N", "Q",
           "expr", "stmt", "Z_0", "_A", "Éa", "数", "ÉA",
           "ParenthesizedExpressionOrTuplePatternOrBlockOrClosureOrMacroCallA", "ParenthesizedExpressionOrTuplePatternOrBlockOrClosureOrMacroCallB",
           "A_", "A__", "AB", "Ab"]
BINDERS = ["a", "b", "c", "x", "y", "z", "lhs", "rhs", "op", "e1", "e2", "f0", "f1", "f2", "x0",
           "tail", "node", "value", "i", "s0", "idx", "err", "token_", "p", "n",
           "_a", "_x1", "__", "a_", "longName", "r#type", "r#match", "é", "名"]


def rstr(s):
    out = ['"']
    for c in s:
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\t":
            out.append("\\t")
        elif c == "\n":
            out.append("\\n")
        else:
            out.append(c)
    return "".join(out) + '"'


class Style:
    """How to write a grammar down.  Plain unless a random generator is given."""

    def __init__(self, g, r=None, types=None, order=False, nt_names=None, simple_types=False):
        nT, nN = g["nT"], g["nN"]
        self.r = r
        self.nt_order = list(range(1, nN + 1))
        self.t_order = list(range(1, nT + 1))
        self.prod_order = None
        self.enum_pos = 0
        self.wrap = None        # how `parser!` is reached through another macro
        self.frags = []
        if r:
            pool = [n for n in NT_POOL]
            if nN > len(pool):
                pool += ["N%d" % i for i in range(nN)]
            names = r.sample(pool, nN) if r.random() < 0.6 else ["N%d" % i for i in range(1, nN + 1)]
            self.nt = dict(zip(range(1, nN + 1), names))
            ntypes = 1 if simple_types else r.choice([1, 2, 2, 3, 5])
            ts = [r.choice(TYPES) for _ in range(ntypes)] if not simple_types else ["String"]
            if not simple_types and r.random() < 0.45:
                ts = list(r.choice(ALIKE)) + ([r.choice(TYPES)] if r.random() < 0.3 else [])
            self.ty = {k: r.choice(ts) for k in range(1, nN + 1)}
            self.enum_pos = r.choice([0, 0, nN, r.randint(0, nN)])
        else:
            self.nt = {k: "N%d" % k for k in range(1, nN + 1)}
            self.ty = {k: "V" for k in range(1, nN + 1)}
        if nt_names:
            self.nt = dict(nt_names)
        if g.get("types"):
            self.ty = dict(g["types"])
            self.lts = list(g["lts"])
            return
        self.lts = []
        if r and r.random() < 0.3:
            self.lts = r.choice([["'a"], ["'input"], ["'a", "'b"], ["'x", "'y"]])
            l = self.lts[0]
            lts = ["&%s str" % l, "Option<&%s str>" % l, "rt::other::G<%s, V>" % l, "Box<&%s str>" % l,
                   "rt::other::G<%s, &%s str>" % (self.lts[-1], l)]
            if not simple_types:
                for k in range(1, nN + 1):
                    if r.random() < 0.4:
                        self.ty[k] = r.choice(lts)


def enum_decl(g, st, r):
    """The user's token type, its constructor function and the patterns of the terminals."""
    nT = g["nT"]
    variants, arms, pats = [], [], {}
    borrowed = set()
    if st.lts:
        borrowed = {t for t in range(1, nT + 1) if r.random() < 0.4} | {r.randint(1, nT)}
    first = True
    for t in range(1, nT + 1):
        k = g["tk"][t - 1]
        if t in borrowed:
            v = "T::K%d" % t
            l = st.lts[0]
            tys, vals, ps = [], [], []
            for i in range(max(1, k)):
                tys.append("&%s str" % l)
                suffix = "" if k < 2 else "ab"[i]
                vals.append('Box::leak(format!("{}%s", n).into_boxed_str())' % suffix)
                ps.append("<&%s str>" % l if k else "_")
            if first and len(st.lts) > 1:
                tys.append("std::marker::PhantomData<&%s ()>" % st.lts[1])
                vals.append("std::marker::PhantomData")
                ps.append(r.choice(["_", ".."]))
            first = False
            variants.append("K%d(%s)" % (t, ", ".join(tys)))
            arms.append("%s(%s)" % (v, ", ".join(vals)))
            pats[t] = "%s(%s)" % (v, ", ".join(ps))
            continue
        shape = r.choice(["tuple", "struct"]) if r else "tuple"
        p1, p2 = '(w.to_string())', None
        v = "T::K%d" % t
        if k == 0:
            sh = r.choice(["unit", "tuple", "struct", "extra"]) if r else "unit"
            if sh == "unit":
                variants.append("K%d" % t); arms.append(v); pats[t] = v
            elif sh == "tuple":
                variants.append("K%d(V)" % t); arms.append(v + "(V(n.to_string()))")
                pats[t] = v + r.choice(["(_)", "(..)"])
            elif sh == "struct":
                variants.append("K%d { a: V, b: u8 }" % t); arms.append(v + " { a: V(n.to_string()), b: 0 }")
                pats[t] = v + r.choice([" { .. }", " { a: _, .. }", " { a: _, b: _ }", " { b: _, a: _, }"])
            else:
                variants.append("K%d(u8, V)" % t); arms.append(v + "(1, V(n.to_string()))")
                pats[t] = v + r.choice(["(_, _)", "(..)", "(_, ..)", "(.., _)"])
        elif k == 1:
            sh = r.choice(["tuple", "struct", "extra", "pair"]) if r else "tuple"
            if sh == "tuple":
                variants.append("K%d(V)" % t); arms.append(v + "(V(n.to_string()))"); pats[t] = v + "(<V>)"
            elif sh == "struct":
                variants.append("K%d { a: u8, b: V }" % t); arms.append(v + " { a: 0, b: V(n.to_string()) }")
                pats[t] = v + r.choice([" { b: <V>, .. }", " { a: _, b: <V> }", " { b: <V>, a: _ }"])
            elif sh == "extra":
                variants.append("K%d(u8, String, u8)" % t); arms.append(v + "(1, n.to_string(), 2)")
                pats[t] = v + r.choice(["(_, <String>, _)", "(_, <String>, ..)"])
            else:
                variants.append("K%d((u8, V))" % t); arms.append(v + "((1, V(n.to_string())))")
                pats[t] = v + "((_, <V>))"
        else:
            a, b = 'V(format!("{}a", n))', 'V(format!("{}b", n))'
            sh = r.choice(["tuple", "struct", "mixed"]) if r else "tuple"
            if sh == "tuple":
                variants.append("K%d(V, V)" % t); arms.append(v + "(%s, %s)" % (a, b)); pats[t] = v + "(<V>, <V>)"
            elif sh == "struct":
                variants.append("K%d { b: V, a: V }" % t); arms.append(v + " { a: %s, b: %s }" % (a, b))
                pats[t] = v + " { a: <V>, b: <V> }"
            else:
                variants.append("K%d(V, W, u8)" % t); arms.append(v + "(%s, W(%s.0), 0)" % (a, b))
                pats[t] = v + "(<V>, <W>, _)"
    decl = "  #[derive(Debug, Clone)] pub enum T%s { %s }\n" % (
        "<%s>" % ", ".join(st.lts) if st.lts else "", ", ".join(variants))
    mk = "  pub fn mk(t: u32, n: u64) -> T%s { match t { %s, _ => unreachable!() } }\n" % (
        "<%s>" % ", ".join("'static" for _ in st.lts) if st.lts else "", ", ".join(
        "%d => %s" % (t, arms[t - 1]) for t in range(1, nT + 1)))
    return decl + mk, pats


def parser_text(g, st, pats, r):
    nT = g["nT"]
    last = st.t_order[-1]
    if r and g["tk"][last - 1] == 0 and r.random() < 0.3:
        # none of the others match: the rest
        pats = dict(pats)
        pats[last] = "_"
    toks = "    enum T%s {\n%s    }\n" % ("<%s>" % ", ".join(st.lts) if st.lts else "", "".join(
        "      %s => %s,\n" % (rstr(g["names"][t - 1]), pats[t]) for t in st.t_order))
    items = []
    by = {}
    for i, p in enumerate(g["prods"], 1):
        by.setdefault(p["lhs"], []).append(i)
    st.frags = []

    def frag(kind, text):
        st.frags.append((kind, text))
        return "$x%d" % (len(st.frags) - 1)
    for k in st.nt_order:
        ps = by.get(k, [])
        if st.prod_order:
            ps = sorted(ps, key=lambda i: st.prod_order[i])
        alts = []
        for i in ps:
            p = g["prods"][i - 1]
            syms, args = [], []
            used = []
            fr = frag if st.wrap == "fragments" and r.random() < 0.4 else (lambda kind, text: text)
            for j, x in enumerate(p["rhs"]):
                if x <= nT:
                    text = rstr(g["names"][x - 1])
                else:
                    text = st.nt[x - nT]
                if p["bind"][j]:
                    if p.get("plain"):
                        b = "x%d" % len(used)
                    elif r and r.random() < 0.7 and len(used) < len(BINDERS) - 2:
                        b = r.choice([c for c in BINDERS if c not in used])
                    else:
                        b = "v%d" % j
                    used.append(b)
                    mut = bool(r and not p.get("plain") and r.random() < 0.15)
                    syms.append("<%s%s:%s>" % ("mut " if mut else "", fr("ident", b), fr("literal", text) if x <= nT else fr("ident", text)))
                    args.append("rt::s({ let _ = &mut %s; %s })" % (b, b) if mut else "rt::s(%s)" % b)
                else:
                    syms.append(text)
            call = "rt::act(%d, vec![%s])" % (p["lab"], ", ".join(args))
            if r and not p.get("plain") and r.random() < 0.25:
                call = "{ let out = %s; out }" % call
                call = fr("block", call)
            else:
                call = fr("expr", call)
            alts.append("%s => %s" % (" ".join(syms), call))
        vis = "pub " if k in g["entries"] else ""
        ty = st.ty[k]
        if st.wrap == "fragments" and not st.lts and r.random() < 0.4:
            ty = frag("ty", ty)
        head = "    %s%s: %s = " % (vis, st.nt[k], ty)
        if len(alts) == 1 and r and r.random() < 0.3:
            items.append(head + alts[0] + ",\n")
        else:
            sep = ",\n" + " " * 6
            last = "," if alts and not (r and r.random() < 0.3) else ""
            items.append(head + "{\n      " + sep.join(alts) + last + "\n    };\n")
    items.insert(min(st.enum_pos, len(items)), toks)
    if r and r.random() < 0.15:
        items.insert(r.randint(0, len(items)), "    type State = %s;\n" % r.choice(["u8", "Vec<V>", "Option<&'static str>"]))
    return "".join(items)


def module(mod, g, st, extra=""):
    """The text of `mod <mod>`; the function `run` drives the entry points."""
    r = st.r
    decl, pats = enum_decl(g, st, r)
    st.wrap = r.choice(["tokens", "whole", "fragments", "fragments"]) if r and len(g["prods"]) < 200 and r.random() < 0.12 else None
    text = "  parser! {\n%s  }\n" % parser_text(g, st, pats, r)
    if st.wrap == "tokens":         # written by another macro
        text = "  macro_rules! written { ($($x:tt)*) => { parser! { $($x)* } } }\n" + text.replace("parser! {", "written! {", 1)
    elif st.wrap:
        text = ("  macro_rules! written { (%s) => {\n%s  } }\n  written! { %s }\n"
                % (" ".join("($x%d:%s)" % (i, f[0]) for i, f in enumerate(st.frags)), text, " ".join("(%s)" % f[1] for f in st.frags)))
    arms = "".join("      %d => rt::conv!(%s::parse(rt::It::new(feed, mk))),\n" % (i, st.nt[e])
                   for i, e in enumerate(g["entries"], 1))
    return ("mod %s {\n  use parsegen::parser;\n  use rt::{V, W, X};\n%s%s%s"
            "  pub fn run(e: usize, feed: rt::Feed) -> rt::Ret {\n    match e {\n%s      _ => unreachable!(),\n    }\n  }\n}\n"
            % (mod, extra, decl, text, arms))
