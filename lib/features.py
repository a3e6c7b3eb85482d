"""Grammars that exercise the notation: result types, payload types, patterns, actions (C08).
Their shape is simple: S -> N1 ... Nk | x, Ni -> ti | y ti | z <Nj>..., without conflicts."""
import gram

# result type, expression of that type
TYPES = [
    ("u8", "1"), ("()", "()"), ("(u8,)", "(1,)"), ("(u8, String)", "(1, String::new())"),
    ("((u8, u8), (char,))", "((1, 2), ('a',))"), ("[u8; 3]", "[1, 2, 3]"), ("[[u8; 2]; 1 + 1]", "[[0; 2]; 2]"),
    ("&'static str", "\"a\""), ("&'static [u8]", "&[1, 2]"), ("Vec<Vec<u8>>", "vec![vec![1]]"),
    ("Option<Box<(u8, V)>>", "None"), ("Result<(), String>", "Ok(())"), ("Result<u8, std::num::ParseIntError>", "\"5\".parse()"),
    ("std::collections::HashMap<String, Vec<(u8, char)>>", "Default::default()"),
    ("fn(u8) -> u8", "|x| x + 1"), ("*const u8", "std::ptr::null()"),
    ("std::marker::PhantomData<fn(V) -> W>", "std::marker::PhantomData"),
    ("<u8 as Assoc>::Out", "7u16"), ("Box<dyn std::fmt::Debug>", "Box::new(1u8)"),
    ("&'static dyn std::fmt::Debug", "&1u8"), ("i64", "-5"), ("f64", "1.0e3 / 2."), ("char", "'\\''"),
    ("bool", "1 < 2 && !false"), ("std::ops::Range<u8>", "0..3"), ("Const<u8, 3>", "Const(1)"),
    ("Const<u8, { 1 + 2 }>", "Const(2)"), ("std::rc::Rc<std::cell::RefCell<Vec<u8>>>", "Default::default()"),
    ("self::Loc", "Loc { line: 1, col: 2 }"), ("Loc", "Loc { line: 1, ..Default::default() }"),
    ("super::super::rt_v::V", "V(String::new())"), ("::std::string::String", "String::from(\"a\") + \"b\""),
    ("std::borrow::Cow<'static, str>", "\"a\".into()"), ("u8", "{ let x = 3; x * 2 }"),
    ("u8", "if 1 > 2 { 3 } else { 4 }"), ("u8", "match 'a' { 'a' => 1, 'b' | 'c' => 2, _ => { 3 } }"),
    ("u8", "loop { break 9 }"), ("u8", "(|| 4)()"), ("u8", "unsafe { std::mem::zeroed() }"),
    ("String", "format!(\"{}-{:?}\", 1, 'a')"), ("Vec<u8>", "vec![1; 3].into_iter().map(|x: u8| x + 1).collect::<Vec<_>>()"),
    ("u64", "5u8 as u64"), ("u8", "<u8 as Default>::default()"), ("Option<u8>", "Some(1).filter(|x| *x > 0)"),
    ("usize", "{ fn inner(n: usize) -> usize { n + 1 } inner(2) }"), ("u8", "[1, 2, 3][1]"), ("(u8, u8)", "{ let (a, b) = (1, 2); (b, a) }"),
    ("u8", "Loc::default().line"), ("Kind", "Kind::B(1, 2)"), ("Kind", "Kind::C { x: 1 }"),
    ("&'static Kind", "&Kind::A"), ("Option<Option<Option<u8>>>", "Some(Some(None))"), ("u8", "b'x'"),
    ("&'static str", "concat!(\"a\", 1)"), ("&'static str", "r#\"raw \" string\"#"), ("i32", "1 - 2 - 3"), ("u8", "!0 >> 3"),
    ("V", "V(String::new())"), ("rt::other::V", "rt::other::V(String::new())"), ("Option<rt::other::V>", "None"), ("Option<V>", "Some(V(String::new()))"),
    ("V", "V(stringify!(a => b).to_string())"), ("fn(&u8) -> &u8", "|x| x"),
]

ITEMS = """
  #[derive(Debug, Clone, Default)] pub struct Loc { pub line: u8, pub col: u8 }
  #[derive(Debug, Clone, PartialEq)] pub enum Kind { A, B(u8, u8), C { x: u8 } }
  #[derive(Debug, Clone)] pub struct Const<A, const N: usize>(A);
  pub trait Assoc { type Out; }
  impl Assoc for u8 { type Out = u16; }
  pub const LIMIT: u8 = 3;
  pub const WORD: &'static str = "while";
"""

PAIR_ITEMS = """
  pub trait Other { type Out; }
  impl Other for u8 { type Out = char; }
  impl Assoc for u16 { type Out = u32; }
  pub const LEN_A: usize = 1;
  pub const LEN_B: usize = 2;
  pub type Alias = u8;
  #[derive(Debug)] #[allow(non_camel_case_types)] pub struct kind;
  #[derive(Debug)] pub struct KIND;
  pub mod sub { #[derive(Debug)] pub struct Kind; pub mod deep { #[derive(Debug)] pub struct Kind; } }
"""

# variant, pattern; each is used with a variant name @
VARIANTS = [
    ("@", "@"), ("@(u8)", "@(<u8>)"), ("@(u8, u8)", "@(<u8>, _)"), ("@(u8, u8)", "@(_, <u8>)"),
    ("@(u8, char, bool)", "@(<u8>, ..)"), ("@(u8, char, bool)", "@(.., <bool>)"), ("@(u8, char, bool)", "@(<u8>, .., <bool>)"),
    ("@(u8, char)", "@(<u8>, <char>)"), ("@(u8, char)", "@(<u8>, <char>,)"), ("@(u8, char, String)", "@(<u8>, <char>, <String>)"),
    ("@(u8)", "@(1)"), ("@(char)", "@('x')"), ("@(&'static str)", "@(\"if\")"), ("@(bool)", "@(true)"), ("@(u8)", "@(b'a')"),
    ("@(u8)", "@(LIMIT)"), ("@(&'static [u8])", "@(b\"xy\")"), ("@(i64)", "@(12_345i64)"), ("@(u8)", "@(0x1F)"),
    ("@(&'static str)", "@(\"\")"), ("@(char)", "@('\\n')"), ("@(char)", "@('\\u{20ac}')"),
    ("@((u8, char))", "@((<u8>, _))"), ("@((u8, (char, bool)))", "@((_, (<char>, true)))"), ("@((u8,))", "@((<u8>,))"),
    ("@(())", "@(())"), ("@((u8, u8, u8))", "@((..))"), ("@((u8, u8, u8))", "@((<u8>, ..))"),
    ("@(Option<u8>)", "@(Some(<u8>))"), ("@(Option<u8>)", "@(None)"), ("@(Option<Option<u8>>)", "@(Some(Some(<u8>)))"),
    ("@(Result<u8, char>)", "@(Err(<char>))"), ("@(Kind)", "@(Kind::A)"), ("@(Kind)", "@(Kind::B(<u8>, <u8>))"),
    ("@(Kind)", "@(Kind::C { x: <u8> })"), ("@(Kind)", "@(Kind::C { .. })"), ("@(Kind)", "@(<Kind>)"), ("@(Loc)", "@(Loc { line: <u8>, col: _ })"),
    ("@(Loc)", "@(Loc { line: 3, .. })"), ("@ { a: u8, b: char }", "@ { a: <u8>, b: <char> }"), ("@ { a: u8, b: char }", "@ { a: <u8>, .. }"),
    ("@ { a: u8, b: char }", "@ { b: 'x', a: <u8> }"), ("@ { a: u8, b: char }", "@ { .. }"), ("@ { a: u8, b: char }", "@ { b: _, a: _, }"),
    ("@ { a: (u8, Option<char>) }", "@ { a: (<u8>, Some(<char>)) }"), ("@ {}", "@ {}"), ("@()", "@()"),
    ("@(Vec<Vec<u8>>)", "@(<Vec<Vec<u8>>>)"), ("@(Vec<Option<Vec<(u8, char)>>>)", "@(<Vec<Option<Vec<(u8, char)>>>>)"),
    ("@([u8; 2])", "@(<[u8; 2]>)"), ("@(&'static str)", "@(<&'static str>)"), ("@(fn(u8) -> u8)", "@(<fn(u8) -> u8>)"),
    ("@(std::collections::HashMap<u8, u8>)", "@(<std::collections::HashMap<u8, u8>>)"), ("@(Box<Loc>)", "@(<Box<Loc>>)"),
    ("@(::std::string::String)", "@(<::std::string::String>)"), ("@(f64)", "@(<f64>)"), ("@(())", "@(<()>)"), ("@((u8, u8))", "@(<(u8, u8)>)"),
    ("@(Const<u8, 3>)", "@(Const(<u8>))"), ("@(Const<u8, 3>)", "@(<Const<u8, 3>>)"),
    ("@(u8, u8, u8, u8, u8)", "@(<u8>, <u8>, <u8>, <u8>, <u8>)"), ("@ { type_: u8 }", "@ { type_: <u8> }"), ("@ { r#type: u8 }", "@ { r#type: <u8> }"),
]

BORROWED = [("@(&'a str)", "@(<&'a str>)"), ("@(&'a [u8])", "@(<&'a [u8]>)"), ("@(Option<&'a str>)", "@(Some(<&'a str>))"),
            ("@(&'a str, &'a str)", "@(<&'a str>, <&'a str>)"), ("@ { s: &'a str, n: u8 }", "@ { n: _, s: <&'a str> }"),
            ("@(std::borrow::Cow<'a, str>)", "@(<std::borrow::Cow<'a, str>>)"), ("@(&'a str)", "@(_)"), ("@(&'a str)", "@(\"let\")"),
            ("@(&'a &'a str)", "@(<&'a &'a str>)"), ("@(std::marker::PhantomData<&'a ()>)", "@(..)")]

# token types that are not enums: declaration, patterns
OTHERS = [
    ("  pub type @ = char;\n", ["'a'", "'b'", "'\\''", "<char>"]),
    ("  pub type @ = u8;\n", ["1", "b'x'", "LIMIT", "0xff", "_"]),
    ("  pub type @ = &'static str;\n", ["\"if\"", "\"else\"", "WORD", "<&'static str>"]),
    ("  pub type @ = (u8, char);\n", ["(1, 'x')", "(2, <char>)", "(<u8>, 'z')", "(.., '!')", "_"]),
    ("  pub type @ = Option<Result<u8, char>>;\n", ["None", "Some(Ok(<u8>))", "Some(Err('x'))", "Some(_)"]),
    ("  #[derive(Debug, Clone)] pub struct @ { pub kind: Kind, pub text: String }\n",
     ["@ { kind: Kind::A, .. }", "@ { kind: Kind::B(_, <u8>), text: _ }", "@ { text: <String>, kind: _ }"]),
    ("  #[derive(Debug, Clone)] pub struct @(pub u8, pub String);\n", ["@(1, _)", "@(2, <String>)", "@(<u8>, ..)"]),
    ("  pub type @ = (usize, Kind, usize);\n", ["(<usize>, Kind::A, <usize>)", "(_, Kind::B(<u8>, ..), <usize>)", "(.., Kind::C { x: 4 }, _)", "(..)"]),
    ("  pub type @ = bool;\n", ["true", "false"]), ("  pub type @ = ();\n", ["()"]),
]
TOKEN_NAMES = ["T", "Tok", "Token", "Lexeme", "TokenKind", "t_", "Symbol", "Terminal"]
NT_NAMES = ["S", "S1", "Expr", "Stmt", "Decl", "File", "Start", "A", "B", "List", "Foo", "Node", "expr", "r", "_X", "Ünit", "X9", "Parser",
            "Grammar", "Program", "A1", "A11", "Main", "Lit", "Ident"]


# result types that are easily taken for one another, with expressions
PAIRS = [
    [("u8", "1"), ("u16", "2")], [("u8", "1"), ("(u8)", "2"), ("(u8,)", "(3,)")], [("[u8; 2]", "[1, 2]"), ("[u8; 3]", "[1, 2, 3]")],
    [("[u8; 2]", "[1, 2]"), ("[char; 2]", "['a', 'b']"), ("[u8; 1 + 2]", "[1, 2, 3]")], [("&'static str", "\"a\""), ("&'static [u8]", "b\"xy\""), ("&'static u8", "&1")],
    [("fn(u8) -> u8", "|x| x"), ("fn(u8) -> u16", "|x| x as u16"), ("fn(u8)", "|_| ()"), ("fn(u16) -> u8", "|x| x as u8")],
    [("*const u8", "std::ptr::null()"), ("*mut u8", "std::ptr::null_mut()")], [("<u8 as Assoc>::Out", "1u16"), ("<u16 as Assoc>::Out", "1u32")],
    [("<u8 as Assoc>::Out", "1u16"), ("<u8 as Other>::Out", "'a'")], [("Const<u8, 3>", "Const(1)"), ("Const<u8, 4>", "Const(1)"), ("Const<u16, 3>", "Const(1)")],
    [("Const<u8, { 1 + 2 }>", "Const(1)"), ("Const<u8, { 1 + 3 }>", "Const(1)")], [("[u8; LEN_A]", "[1; LEN_A]"), ("[u8; LEN_B]", "[1; LEN_B]")],
    [("Option<u8>", "Some(1)"), ("Option<u16>", "None"), ("Option<Option<u8>>", "None")], [("Kind", "Kind::A"), ("sub::Kind", "sub::Kind")],
    [("sub::Kind", "sub::Kind"), ("sub::deep::Kind", "sub::deep::Kind"), ("self::Kind", "Kind::A")], [("Kind", "Kind::A"), ("KIND", "KIND"), ("kind", "kind")],
    [("Box<dyn std::fmt::Debug>", "Box::new(1)"), ("Box<dyn std::fmt::Debug + Send>", "Box::new(2)"), ("Box<u8>", "Box::new(3)")],
    [("()", "()"), ("((),)", "((),)"), ("((), ())", "((), ())")], [("(u8, char)", "(1, 'a')"), ("(char, u8)", "('a', 1)"), ("(u8, char, u8)", "(1, 'a', 2)")],
    [("Vec<u8>", "vec![1]"), ("std::vec::Vec<u8>", "vec![1]"), ("Vec<Vec<u8>>", "vec![]"), ("Vec<[u8; 1]>", "vec![[1]]")],
    [("Result<u8, char>", "Ok(1)"), ("Result<char, u8>", "Ok('a')"), ("Result<u8, u8>", "Err(1)")], [("Alias", "1"), ("u8", "1")],
    [("std::rc::Rc<u8>", "1.into()"), ("std::sync::Arc<u8>", "1.into()"), ("Box<u8>", "1.into()")], [("String", "String::new()"), ("&'static String", "todo!()"), ("Option<String>", "None")],
    [("&'static mut u8", "todo!()"), ("&'static u8", "&1")], [("fn(&u8) -> &u8", "|x| x"), ("for<'x, 'y> fn(&'x u8) -> u8", "|x| *x")],
    [("unsafe fn(u8) -> u8", "todo!()"), ("fn(u8) -> u8", "|x| x"), ("extern \"C\" fn(u8) -> u8", "todo!()")], [("std::marker::PhantomData<u8>", "Default::default()"), ("std::marker::PhantomData<u16>", "Default::default()")],
]


def pairs(r):
    out = []
    for group in PAIRS:
        ts = list(group)
        r.shuffle(ts)
        k = len(ts)
        names = r.sample(NT_NAMES, k + 1)
        prods = [(1, [-(j + 2) for j in range(k)])] + [(j + 2, [j + 1]) for j in range(k)]
        toks = "enum T { %s }" % ", ".join("\"t%d\" => %s" % (j + 1, j + 1 if j + 1 < k else "_") for j in range(k))
        decls = ["pub %s: %s = { %s => f0, };" % (names[0], ts[0][0], " ".join("<f%d: %s>" % (j, names[j + 1]) for j in range(k)))]
        decls += ["%s: %s = \"t%d\" => %s," % (names[j + 1], ts[j][0], j + 1, ts[j][1]) for j in range(k)]
        r.shuffle(decls)
        g = gram.grammar(prods, [1], nT=k, nN=k + 1)
        g["name"] = "features"
        g["template"] = ("mod @MOD@ {\n  use parsegen::parser;\n" + ITEMS.strip("\n") + PAIR_ITEMS + "  pub type T = u8;\n  parser! {\n    " +
                         "\n    ".join([toks] + decls) + "\n  }\n}\n")
        out.append(g)
    return out


def count(p):
    n = 0
    i = 0
    while True:
        i = p.find("<", i)
        if i < 0:
            return n
        # a marked part: skip to its closing bracket
        d = 0
        while True:
            if p[i] == "<":
                d += 1
            elif p[i] == ">" and p[i - 1] != "-":
                d -= 1
                if d == 0:
                    break
            i += 1
        n += 1


def usage(nt, ty, tname, lts):
    """Code of the user around the parser: any iterator, any error type that can be cloned."""
    lt = "".join(l + ", " for l in lts)
    tok = tname + ("<%s>" % ", ".join(lts) if lts else "")
    return """  pub fn any<%sErr_: Clone, Iter_: Iterator<Item = Result<%s, Err_>>>(i: Iter_) -> Result<%s, ParseError<Err_>> { %s::parse(i) }
  #[derive(Clone)] pub struct Plain_<'e>(&'e u8);
  pub fn some<%s'e>(ts: &mut dyn Iterator<Item = Result<%s, Plain_<'e>>>) -> Option<%s> {
    match %s::parse(ts.take(3)) {
      Ok(v) => Some(v),
      Err(ParseError::LexerError(Plain_(_))) => None,
      Err(ParseError::ParserError { found, expected }) => { let _: [&'static str; 2] = [found, expected]; None }
    }
  }
  pub fn err(e: ParseError<u8>) -> bool { e == e.clone() && format!("{:?}", e).is_empty() }
""" % (lt, tok, ty, nt, lt, tok, ty, nt)


def modules(r, n):
    out = []
    order = []
    while len(order) < n * 3:
        order += r.sample(VARIANTS, len(VARIANTS))
    torder = []
    while len(torder) < n * 4:
        torder += r.sample(TYPES, len(TYPES))
    for i in range(n):
        tname = r.choice(TOKEN_NAMES)
        lts = []
        if i % 3 == 2:
            decl, pats = r.choice(OTHERS)
            pats = [p.replace("@", tname) for p in pats]
            k = r.randint(1, len(pats))
            keep = set(r.sample(range(len(pats)), k))
            pats = [p for j, p in enumerate(pats) if j in keep]
            decl = decl.replace("@", tname)
        else:
            vs = [order.pop() for _ in range(r.randint(1, 3))]
            if r.random() < 0.3:
                lts = ["'a"] if r.random() < 0.7 else ["'a", "'b"]
                vs += r.sample(BORROWED, r.randint(1, 2))
                if len(lts) > 1:
                    vs.append(("@(&'b u8)", r.choice(["@(<&'b u8>)", "@(_)"])))
                r.shuffle(vs)
            names = r.sample(["Id", "Num", "A", "B", "Kw", "Op", "Lit", "X", "Y", "E", "None_"], len(vs))
            decl = "  #[derive(Debug, Clone)] pub enum %s%s { %s }\n" % (
                tname, "<%s>" % ", ".join(lts) if lts else "", ", ".join(v.replace("@", m, 1) for m, (v, _) in zip(names, vs)))
            pats = [p.replace("@", tname + "::" + m, 1) for m, (_, p) in zip(names, vs)]
        if "_" not in pats:
            pats.append("_")               # the patterns have to cover the token type
        nT = len(pats)
        k = r.randint(1, 3)
        nn = r.sample(NT_NAMES, k + 1)
        pub0 = nn[0]
        items = ["enum %s%s { %s%s }" % (tname, "<%s>" % ", ".join(lts) if lts else "", ", ".join(
            "%s => %s" % ('"t%d"' % (j + 1), p) for j, p in enumerate(pats)), r.choice(["", ","]))]
        prods = []
        used = []
        texts = []
        for j in range(k):
            ty, e = torder.pop()
            alts = []
            a = r.randint(1, nT)
            for rhs in ([a], [a, -(j + 2)]) if r.random() < 0.5 else ([a],):
                prods.append((j + 2, list(rhs)))
                form = []
                pre = ""
                for m, x in enumerate(rhs):
                    s = '"t%d"' % x if x > 0 else nn[-x - 1]
                    if r.random() < 0.5:
                        b = "bind%d" % m
                        b = r.choice([b, "_" + b])
                        mut = r.random() < 0.5
                        form.append("<%s%s:%s>" % ("mut " if mut else "", b, s))
                        pre += r.choice(["", "let _ = &%s; " % b, "drop(%s); " % b] + mut * ["let _ = &mut %s; " % b])
                    else:
                        form.append(s)
                alts.append("%s => %s" % (" ".join(form), "{ %s%s }" % (pre, e) if pre else e))
            texts.append((nn[j + 1], ty, alts))
        # S: all of them in a row, so that nothing conflicts
        rhs0 = []
        for j in range(k):
            rhs0 += [-(j + 2)]
        prods.insert(0, (1, rhs0))
        ty, e = torder.pop()
        alts0 = [" ".join(("<f%d:%s>" % (j, nn[j + 1]) if r.random() < 0.4 else nn[j + 1]) for j in range(k)) + " => " + e]
        texts.insert(0, (nn[0], ty, alts0))
        for j, (name, ty, alts) in enumerate(texts):
            vis = "pub " if j == 0 else ""
            if len(alts) == 1 and r.random() < 0.5:
                items.append("%s%s: %s = %s," % (vis, name, ty, alts[0]))
            else:
                items.append("%s%s: %s = { %s%s };" % (vis, name, ty, ", ".join(alts), r.choice(["", ","])))
        if r.random() < 0.2:
            items.append("type State = %s;" % r.choice([t for t, _ in TYPES]))
        r.shuffle(items)
        g = gram.grammar(prods, [1], nT=nT, nN=k + 1)
        # the same non-terminal twice in a row may be ambiguous: keep conflict-free shapes only
        try:
            _, c, _ = gram.lr1(g, 300)
        except gram.TooBig:
            continue
        if c:
            continue
        g["name"] = "features"
        body = "    " + "\n    ".join(items)
        use = usage(nn[0], texts[0][1], tname, lts)
        if r.random() < 0.1:
            inner = "  pub fn scope() {\n  use rt::{V, W};\n  parser! {\n%s\n  }\n%s  }\n" % (body, use)
        else:
            inner = "  parser! {\n%s\n  }\n%s" % (body, use)
        g["template"] = ("mod @MOD@ {\n  use parsegen::parser;\n  use rt::{V, W};\n  " + ITEMS.strip("\n") + "\n" + decl + inner + "}\n").replace("super::super::rt_v", "rt")
        out.append(g)
    return out
