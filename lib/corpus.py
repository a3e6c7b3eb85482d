"""Which grammars and inputs the checks look at."""
import json
import os
import random
import gram
from gram import from_text, grammar

# Hand-written grammars: the classics, and shapes that generators get wrong.
CLASSICS = {
    # expressions
    "expr": "S -> E ; E -> E + T | T ; T -> T * F | F ; F -> ( E ) | id",
    "expr_r": "S -> T + S | T ; T -> F * T | F ; F -> ( S ) | id",
    "expr_unary": "E -> E + U | U ; U -> - U | P ; P -> P ! | id | ( E )",
    "assign": "S -> L = R | R ; L -> * R | id ; R -> L",          # LALR, not SLR
    "lr1_not_lalr": "S -> a A d | b B d | a B e | b A e ; A -> c ; B -> c",
    "lr1_not_lalr2": "S -> a A d | b B d | a B e | b A e ; A -> c A | c ; B -> c B | c",
    "cc": "S -> C C ; C -> c C | d",
    # recursion
    "left": "S -> S a | a", "right": "S -> a S | a", "left0": "S -> S a | ", "right0": "S -> a S | ",
    "mid": "S -> a S b | ", "mid1": "S -> a S b | c", "mutual": "A -> B a | a ; B -> A b | b",
    "indirect": "S -> A x ; A -> B | a ; B -> C b ; C -> S c | d",
    "hidden_right": "S -> a S O | a ; O -> ",
    "dyck": "S -> S ( S ) | ", "dyck2": "S -> ( S ) S | [ S ] S | ",
    # nullable things
    "null3": "S -> A B C ; A -> a | ; B -> b | ; C -> c | ",
    "null_chain": "S -> A x ; A -> B C ; B -> D D ; C -> D ; D -> ",
    "null_mix": "S -> A B C d ; A -> a | ; B -> b | ; C -> c C | ",
    "null_tail": "S -> a T U V ; T -> t | ; U -> u | ; V -> v | ",
    "null_mid": "S -> x A B y | x A z ; A -> a A | ; B -> b | ",
    "null_rec": "S -> A S b | c ; A -> a",
    "null_late": "S -> A a ; A -> B ; B -> C ; C -> D ; D -> d | ",
    "null_first": "S -> X Y ; X -> Y Z ; Y -> y | ; Z -> z | x X",
    "empty": "S -> ", "empty_pub2": "*S -> A ; *A -> ", "opt": "S -> O a ; O -> b | ",
    "eof_la": "S -> A | A b ; A -> a O ; O -> ",
    "eof_only": "S -> A O ; A -> a A | b ; O -> ",
    "list_sep": "S -> L O ; L -> L , i | i ; O -> , | ",
    "list_opt_sep": "S -> | L | L , ; L -> i | L , i",
    "stmts": "P -> SS ; SS -> SS ST | ; ST -> id = X semi | { SS } ; X -> X + id | id",
    "json": "V -> { M } | [ E ] | s | n ; M -> | ML ; ML -> P | ML , P ; P -> s : V ; E -> | EL ; EL -> V | EL , V",
    "if_matched": "S -> M | U ; M -> i e0 M el M | o ; U -> i e0 S | i e0 M el U",
    "lambda": "E -> \\ id . E | A ; A -> A P | P ; P -> id | ( E )",
    "types": "T -> F > T | F ; F -> F * B | B ; B -> id | ( T )",
    "pal": "S -> a S a2 | b S b2 | c",
    "unit": "S -> A ; A -> B ; B -> C ; C -> D ; D -> a | b",
    "deep_la": "S -> A a | B b ; A -> C ; B -> D ; C -> x ; D -> y",
    "la_split": "S -> x E ] | y E ) ; E -> E + id | id",
    "la_split2": "S -> a E x | b E y | a F y | b F x ; E -> e ; F -> e",
    "la_split_eps": "S -> a E x | b E y | a F y | b F x ; E -> ; F -> ",
    "la_split_deep": "S -> a E x | b E y | a F y | b F x ; E -> G ; F -> H ; G -> g ; H -> g",
    "unreach": "S -> a ; U -> b U | c ; W -> U S",
    "many_entries": "*S -> A b ; *A -> a A | c ; *B -> S | A d",
    "self_entries": "*A -> a A | B ; *B -> b A c | d",
    "entries_null": "*A -> B C ; *B -> b | ; *C -> c C | ",
    "long_rhs": "S -> a b c d e f g h i j k l m n o p q r s t u v w x y z | a b c d e f g h i j k l m",
    "long_nt_rhs": "S -> A A A A A A A A A A B ; A -> a ; B -> b",
    "kw": "S -> D S | ; D -> let id = X semi | fn id ( PL ) { S } ; PL -> | PS ; PS -> id | PS , id ; X -> X + A | A ; A -> id | num | A ( AL ) | ( X ) ; AL -> | AS ; AS -> X | AS , X",
    "sql": "Q -> select CL from TL WO GO ; CL -> * | CS ; CS -> C | CS , C ; C -> id | id . id ; TL -> T | TL , T ; T -> id | id as id ; WO -> where B | ; B -> B and K | K ; K -> C = C | ( B ) ; GO -> group CS | ",
    "regex": "R -> R bar C | C ; C -> C B | B ; B -> B * | B + | A ; A -> a | ( R )",
    "lisp": "S -> E S | ; E -> at | ( L ) | q E ; L -> L E | ",
    "ini": "F -> SE ; SE -> SE SC | ; SC -> [ id ] nl PS ; PS -> PS P | ; P -> id = V nl ; V -> V w | ",
    # unproductive parts (never a full parse through them)
    "unprod": "S -> a | b U ; U -> c U",
    "unprod_all": "S -> a S",
    "unprod2": "S -> A b | c ; A -> a A",
}

# Shift/reduce conflicts only.
SR = {
    "dangling": "S -> i S | i S e S | o",
    "amb_plus": "E -> E + E | id",
    "amb2": "E -> E + E | E * E | id",
    "amb_pre": "E -> - E | E + E | id",
    "amb_post": "E -> E ! | - E | id",
    "tern": "E -> E q E c E | id",
    "cat": "S -> S S | a",
    "cat_star": "S -> S S | S * | a",
    "sr_eps": "S -> A a b | a c ; A -> ",
    "sr_eps2": "S -> O a ; O -> a | ",
    "sr_list": "L -> I | I L ; I -> x | x L y",
    "sr_two_null": "S -> A B ; A -> | a ; B -> | a",
    "sr_opt": "S -> B T ; B -> b O ; O -> o | ; T -> o t | t",
    "sr_lam": "E -> \\ E | E E | id",
    "sr_call": "E -> E ( E ) | E = E | id",
    "sr_lo": "A -> b A | B c | c ; B -> b b | b d",
    "sr_hi": "S -> B a | a x ; B -> C ; C -> ",
    "sr_z": "S -> Z a y | a z ; Z -> ",
    "sr_z2": "S -> a z | Z a y ; Z -> ",
    "sr_z3": "Z -> ; *S -> a z | Z a y",
}

# Reduce/reduce or reduce/accept conflicts.
RR = {
    "rr": "S -> A | B ; A -> a ; B -> a",
    "rr_same": "S -> A ; A -> a | B ; B -> a",
    "rr_eps": "S -> A a | B a ; A -> ; B -> ",
    "rr_eof": "S -> A | B ; A -> x a ; B -> x a",
    "rr_tok": "S -> A t | B t ; A -> a ; B -> a",
    "rr_deep": "S -> x A p | x B p ; A -> C ; B -> D ; C -> y ; D -> y",
    "rr_acc": "S -> S | a",
    "rr_acc2": "S -> A | a ; A -> S",
    "rr_acc3": "S -> T ; T -> S | t",
    "rr_nullrec": "S -> S S | ",
    "rr_late": "S -> A x | B y | C ; A -> k ; B -> k ; C -> A z | B z",
    "rr_second_entry": "*S -> a ; *Q -> A | B ; A -> b ; B -> b",
    "rr_sr": "S -> A b | B b | b c ; A -> ; B -> ",
    "rr_sr2": "S -> a b c | A b | B b ; A -> a ; B -> a",
    "rr_split": "S -> A x | B x | B y ; A -> a ; B -> a",
    "rr_same_nt": "S -> A ; A -> a B | a C ; B -> b ; C -> b",
    "rr_dup": "S -> a | a",
    "rr_unit_cycle": "S -> A ; A -> B | a ; B -> A",
    "rr_eps_eof": "S -> A | B ; A -> ; B -> ",
    "rr_acc_eps": "S -> S A | a ; A -> ",
}


def same_actions(g, r):
    """Actions written in the same way, for some productions that bind as many symbols."""
    n = 1 if r.random() < 0.5 else 0.7
    first = {}
    for i, p in enumerate(g["prods"], 1):
        if r.random() < n:
            p["lab"] = first.setdefault(sum(p["bind"]), i)
            p["plain"] = 1


def setup(g, r, name=None):
    """Bindings and payloads."""
    g["name"] = name
    if r:
        kinds = r.choice([[1], [0, 1], [0, 1, 1, 2], [0]])
        g["tk"] = [r.choice(kinds) for _ in range(g["nT"])]
        pb = r.choice([1.0, 0.9, 0.7, 0.5])
        for p in g["prods"]:
            p["bind"] = [1 if r.random() < pb else 0 for _ in p["rhs"]]
        if r.random() < 0.3:
            same_actions(g, r)
    return g


def fresh_names(g, r):
    import render
    if r.random() < 0.5:
        pool = list(dict.fromkeys(render.NAME_POOL))
        if g["nT"] <= len(pool):
            g["names"] = r.sample(pool, g["nT"])
    return g


def classics(r, table=None):
    out = []
    for name, text in (table or CLASSICS).items():
        out.append(setup(from_text(text), r, name))
    return out


def random_free(r, n, productive=True, entries=None, max_states=120, min_states=5, allow=(), want=None):
    """n random grammars without conflicts (allow: conflict kinds tolerated; want: required)."""
    out = []
    seen = set()
    tries = 0
    while len(out) < n and tries < 400 * n + 4000:
        tries += 1
        g = gram.random_grammar(r)
        if entries:
            k = r.randint(1, min(entries, g["nN"]))
            g["entries"] = r.sample(range(1, g["nN"] + 1), k)
        key = str(g["prods"]) + str(g["entries"])
        if key in seen:
            continue
        Y = gram.yields(g)
        bad = any(Y[k] is None for k in range(1, g["nN"] + 1))
        if bad == productive and (productive or r.random() < 0.9):
            continue
        if len(gram.reachable(g)) < g["nN"] and r.random() < 0.9:
            continue
        try:
            s, c, _ = gram.lr1(g, max_states)
        except gram.TooBig:
            continue
        if not c <= set(allow) or (want and not (c & set(want))):
            continue
        if s < min_states and r.random() < 0.8:
            continue
        seen.add(key)
        out.append(fresh_names(setup(g, r, "random"), r))
    return out


def inputs_from_cover(g, cover, cls, r, cap, neg=True, lexerr=True):
    """Inputs of the item cover printed by spec/Cover.tla for one grammar: (entry, items)."""
    exp = cls["exp"]
    sent, negs = {}, {}
    pres = {}
    for c in cover:
        key = (c["s"], c["c"])
        sent.setdefault((c["e"], tuple(c["pre"] + c["suf"])), key)
        pres.setdefault(c["s"], []).append((c["e"], tuple(c["pre"])))
    pos = [(e, list(w)) for e, w in sent]
    ng = []
    if neg:
        for s, ps in pres.items():
            e, pre = min(ps, key=lambda p: len(p[1]))
            ok = set(exp[s - 1])
            for t in range(0, g["nT"] + 1):
                if t not in ok:
                    w = list(pre) + ([t] if t else [])
                    if t and r.random() < 0.5:
                        w += [r.choice([r.randint(1, g["nT"]), -r.randint(1, 9)]) for _ in range(r.randint(1, 3))]
                    ng.append((e, w))
            if lexerr and r.random() < 0.5:
                ng.append((e, list(pre) + [-r.randint(1, 99)] + [r.randint(1, g["nT"])] * r.randint(0, 2)))
    r.shuffle(pos)
    r.shuffle(ng)
    half = cap // 2
    n1 = min(len(pos), max(half, cap - len(ng)))
    return pos[:n1] + ng[:cap - n1]


def random_inputs(g, r, n, maxlen=12, lexerr=True):
    Y = gram.yields(g)
    out = []
    for _ in range(n):
        i = r.randint(1, len(g["entries"]))
        k = g["entries"][i - 1]
        if Y[k] is None or r.random() < 0.1:
            w = [r.randint(1, g["nT"]) for _ in range(r.randint(0, 6))]
        else:
            w = gram.derive(g, r, k, r.randint(0, maxlen), Y)
            x = r.random()
            if x < 0.45:
                w = gram.mutate(g, r, w)
            if lexerr and r.random() < 0.12:
                j = r.randint(0, len(w))
                w = w[:j] + [-r.randint(1, 99)] + (w[j:] if r.random() < 0.7 else [])
        if len(w) <= 60:
            out.append((i, w))
    return out


def dedupe(inputs):
    seen = set()
    out = []
    for e, w in inputs:
        key = (e, tuple(w))
        if key not in seen:
            seen.add(key)
            out.append((e, w))
    return out


# ---------------------------------------------------------------------------------------------
# Big grammars: numbers of terminals, non-terminals, productions, states and symbols of a
# right-hand side around the limits of small integer types.

def flat_terminals(n):
    return gram.grammar([(1, [-1, -2]), (1, [])] + [(2, [t]) for t in range(1, n + 1)])


def wide(n):
    """n non-terminals that differ in nothing but their context."""
    m = 17
    return gram.grammar([(1, [a, b, -(2 + (a - 1) * m + b - 1)]) for a in range(1, m + 1) for b in range(1, m + 1)
                         if (a - 1) * m + b <= n] + [(k + 1, [m + 1]) for k in range(1, n + 1)])


def long_rhs(n):
    return gram.grammar([(1, [1 + (i % 3) for i in range(n)]), (1, [3] + [-2] * 2), (2, [2]), (2, [1, -2])])


def long_rhs_nts(n):
    return gram.grammar([(1, [1 if i % 5 == 0 else -2 for i in range(n)]), (2, [2]), (2, [])] if n < 20 else
                        [(1, [1 if i % 5 == 0 else -2 for i in range(n)]), (2, [2, -2, 3]), (2, [3])])


def chain(n):
    return gram.grammar([(i, [1, -(i + 1)]) for i in range(1, n)] + [(i, [2]) for i in range(1, n + 1)])


def nullables(n):
    return gram.grammar([(1, [-i for i in range(2, n + 2)])] +
                        [(i + 1, x) for i in range(1, n + 1) for x in ([i], [])])


def many_prods(n):
    """n productions of one non-terminal over two terminals."""
    return gram.grammar([(1, [3, -1, -2]), (1, [])] +
                        [(2, [1 + (i >> b & 1) for b in range(9)]) for i in range(n)])


def pairs(n):
    """A terminal is told from every other one by what has to follow it."""
    return gram.grammar([(1, [-1, -2]), (1, [])] + [(2, [t, t % n + 1]) for t in range(1, n + 1)])


def kinds(n):
    """n non-terminals and 2n productions over n terminals, none of which is like any other."""
    return gram.grammar([(1, [-(k + 1)]) for k in range(1, n + 1)] +
                        [(k + 1, [k] + [k] * (k % 3)) for k in range(1, n + 1)])


def fans(n):
    """Non-terminals with two productions that begin with the next one."""
    return gram.grammar([(i, [-(i + 1), t]) for i in range(1, n) for t in (1, 2)] + [(n, [1]), (n, [2])])


def inflate(g, k, m):
    """The same grammar after k further terminals and m further non-terminals, none of which is of use."""
    nT = g["nT"]
    up = lambda x: x + k if x <= nT else x + k + m
    extra = [{"lhs": i, "rhs": [1 + i % (k + 1)], "bind": [0]} for i in range(1, m + 1)]
    ps = extra + [dict(p, lhs=p["lhs"] + m, rhs=[up(x) for x in p["rhs"]]) for p in g["prods"]]
    h = dict(g, nT=nT + k, nN=g["nN"] + m, entries=[e + m for e in g["entries"]],
             names=["x%d" % i for i in range(1, k + 1)] + g["names"], tk=[0] * k + g["tk"], name="%s after %d/%d" % (g["name"], k, m))
    first = {}
    h["prods"] = [dict(p, lab=i) for i, p in enumerate(ps, 1)]
    for i, p in enumerate(g["prods"]):          # actions written in the same way
        if p.get("plain"):
            h["prods"][m + i]["lab"] = first.setdefault(p["lab"], m + i + 1)
    return h


def inflated(r, gs, n):
    """n of the grammars, where they get other numbers"""
    out = []
    small = [g for g in gs if len(g["prods"]) <= 16 and not g.get("big") and not g.get("words") and not g.get("types")]
    for g in r.sample(small, min(n, len(small))):
        k, m = r.choice([31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 260, 300]), r.choice([0, 0, 0, 1, 63, 64, 128, 256])
        if k + m > 450:
            m = 0
        h = inflate(g, k, m)
        h["simple_types"] = True
        out.append(h)
    return out


BIG = [("pairs", pairs, (127, 129, 254, 255, 256, 257, 258, 300)),
       ("kinds", kinds, (127, 129, 254, 256, 257, 258, 300)),
       ("flat_terminals", flat_terminals, (120, 131, 254, 255, 256, 257, 258, 300)),
       ("wide", wide, (127, 129, 254, 257, 280)),
       ("long_rhs", long_rhs, (127, 129, 255, 256, 257, 300)),
       ("long_rhs_nts", long_rhs_nts, (60, 130, 257, 260)),
       ("chain", chain, (40, 60, 130)),
       ("fans", fans, (30, 40, 60)),
       ("nullables", nullables, (33, 65, 120)),
       ("many_prods", many_prods, (130, 257, 270))]


def bigs(r, n=1):
    """Every family, n times: first beyond the limits, then around them."""
    out = []
    for name, f, sizes in BIG * n:
        k = r.choice(sizes[-3:] if len(out) < len(BIG) else sizes)
        g = f(k)
        setup(g, r, "%s(%d)" % (name, k))
        g["cover"] = 0
        g["big"] = True
        g["simple_types"] = True
        out.append(g)
    return out


def wide_inputs(g, r, n):
    """Sentences through every production of a high number (and n others), and what they become when
    the number of a token is truncated."""
    nT = g["nT"]
    Y = gram.yields(g)
    ctx = {}
    todo = []
    for i, e in enumerate(g["entries"], 1):
        if e not in ctx:
            ctx[e] = (i, [], [])
            todo.append(e)
    by = {}
    for p in g["prods"]:
        by.setdefault(p["lhs"], []).append(p["rhs"])
    flat = lambda rhs: [t for x in rhs for t in ([x] if x <= nT else Y[x - nT])]
    for k in todo:
        i, pre, suf = ctx[k]
        for rhs in by.get(k, []):
            if any(x > nT and Y[x - nT] is None for x in rhs):
                continue
            for d, x in enumerate(rhs):
                if x > nT and x - nT not in ctx:
                    ctx[x - nT] = (i, pre + flat(rhs[:d]), flat(rhs[d + 1:]) + suf)
                    todo.append(x - nT)
    idx = range(1, len(g["prods"]) + 1)
    hi = [i for i in idx if i > 255]
    lo = [i for i in idx if i <= 255]
    some = r.sample(hi, min(len(hi), 2 * n)) + r.sample(lo, min(len(lo), n))
    out = []
    for i in some:
        p = g["prods"][i - 1]
        if p["lhs"] not in ctx or any(x > nT and Y[x - nT] is None for x in p["rhs"]):
            continue
        e, pre, suf = ctx[p["lhs"]]
        w = pre + flat(p["rhs"]) + suf
        if len(w) > 700:
            continue
        out.append((e, w))
        for d in (256, 128):
            for s in (d, -d):
                js = [j for j in range(len(w)) if 1 <= w[j] + s <= nT]
                if js:
                    for some_js in ([r.choice(js)], js):
                        out.append((e, [x + s if j in some_js else x for j, x in enumerate(w)]))
    r.shuffle(out)
    return out


def deep_inputs(g, r, n, budget):
    """A few long inputs."""
    Y = gram.yields(g)
    out = []
    for _ in range(n):
        i = r.randint(1, len(g["entries"]))
        k = g["entries"][i - 1]
        if Y[k] is None:
            continue
        w = gram.derive(g, r, k, r.randint(budget // 2, budget), Y, deep=r.choice([0.0, 0.8, 0.97]))
        if r.random() < 0.4:
            w = gram.mutate(g, r, w)
        out.append((i, w))
    return out


# ---------------------------------------------------------------------------------------------

def lr1_not_lalr(r, n):
    """Grammars whose conflict-freeness needs look-aheads to be kept apart by context."""
    out = []
    for _ in range(n):
        m = r.randint(2, 4)                    # contexts
        depth = r.randint(0, 3)
        eps = r.random() < 0.3
        prods = []
        nxt = [2]

        def nt():
            nxt[0] += 1
            return nxt[0] - 1
        a, b = nt(), nt()
        ctx = list(range(1, m + 1))
        x, y = m + 1, m + 2
        e, z = m + 3, m + 4
        perm = [r.random() < 0.5 for _ in ctx]
        perm[0], perm[1] = False, True
        for c, flip in zip(ctx, perm):
            pre = [c] + [z] * (r.randint(0, 2) if r.random() < 0.5 else 0)
            prods.append((1, pre + [-a] + [y if flip else x]))
            prods.append((1, pre + [-b] + [x if flip else y]))
        for root in (a, b):
            k = root
            for _ in range(depth):
                j = nt()
                prods.append((k, [-j]))
                k = j
            if eps:
                prods.append((k, []))
            else:
                prods.append((k, [e]))
                if r.random() < 0.5:
                    prods.append((k, [e, -root]))
        prods.sort(key=lambda p: p[0])
        g = grammar(prods, nT=m + 4)
        try:
            s, c, _ = gram.lr1(g, 300)
        except gram.TooBig:
            continue
        if c:
            continue
        out.append(fresh_names(setup(g, r, "lr1_not_lalr"), r))
    return out


def shapes(r, n):
    """Alternatives told apart by their first token, with much the same symbols, of which different ones
    are named, and the same actions."""
    out = []
    for _ in range(n):
        k = r.randint(2, 8)                   # alternatives
        nN = r.randint(2, 4)
        ops = list(range(-nN, -1)) + [k + 1, k + 2]
        ops = r.sample(ops, r.randint(1, min(3, len(ops))))
        m = r.randint(1, 4)
        prods, binds = [(1, [])] if r.random() < 0.5 else [(1, [k + 2])], []
        binds.append([0] * len(prods[0][1]))
        for i in range(1, k + 1):
            rhs = [r.choice(ops) for _ in range(m if r.random() < 0.8 else r.randint(0, 4))]
            tail = r.random() < 0.3
            prods.append((1, [i] + rhs + ([-1] if tail else [])))
            q = r.choice([0.3, 0.5])
            binds.append([1 if r.random() < 0.2 else 0] + [1 if r.random() < q else 0 for _ in rhs] + ([r.randint(0, 1)] if tail else []))
        for j in range(2, nN + 1):
            prods.append((j, [k + 1 + j % 2]))
            binds.append([1])
            if r.random() < 0.4:
                prods.append((j, [k + 3, -1, k + 4]))
                binds.append([0, 1, 0])
        g = grammar(prods, [1], nT=k + 4, nN=nN, bind=binds)
        g["name"] = "shapes"
        g["tk"] = [r.choice([1, 1, 1, 0, 2]) for _ in range(g["nT"])]
        if r.random() < 0.8:
            first = {}
            for i, p in enumerate(g["prods"], 1):
                p["lab"] = first.setdefault((p["lhs"] == 1, sum(p["bind"])), i)
                p["plain"] = 1
        try:
            if gram.lr1(g, 300)[1]:
                continue
        except gram.TooBig:
            continue
        out.append(fresh_names(g, r))
    return out


def alike(r):
    """For each group of types that are easily taken for one another, a grammar in which all of them
    are results."""
    import render
    out = []
    for lts, groups in (([], render.ALIKE), (["'a", "'b"], render.ALIKE_LT)):
        for group in groups:
            ts = list(group)
            r.shuffle(ts)
            k = len(ts)
            nts = list(range(2, k + 2))
            prods = [(1, [-x for x in nts]), (1, [k + 1, -r.choice(nts)])]
            binds = [[1] * k, [0, 1]]
            for x in nts:
                prods += [(x, [x - 1]), (x, [k + 2, -r.choice(nts)])]
                binds += [[1], [0, 1]]
            g = grammar(prods, r.choice([[1], [1, 2], list(range(1, k + 2))]), nT=k + 2, nN=k + 1, bind=binds)
            g["name"] = "alike"
            g["tk"] = [r.choice([1, 1, 0, 2]) for _ in range(k + 2)]
            g["types"] = dict(zip(range(1, k + 2), [r.choice(ts)] + ts))
            g["lts"] = list(lts)
            out.append(fresh_names(g, r))
    return out


def languages(r, n):
    """Grammars of the size of a programming language: some non-terminals have many productions, most
    have few; each production is told by its first token."""
    out = []
    while len(out) < n:
        nN = r.randint(22, 30)
        many = set(r.sample(range(1, 4), 2) + r.sample(range(4, nN + 1), 2))
        pool = 16                             # tokens productions begin with; then delimiters
        nT = pool + 4
        prods, binds = [], []
        for k in range(1, nN + 1):
            m = r.randint(11, 14) if k in many else r.choice([1, 1, 2, 2, 3])
            heads = r.sample(range(1, pool + 1), m)
            for j, h in enumerate(heads):
                rhs = [h]
                kids = r.choice([0, 0, 1]) if k in many else r.choice([1, 1, 2])
                if j == 0:
                    kids = 0
                for c in range(kids):
                    x = k + 1 if k < nN and c == 0 and r.random() < 0.6 else r.randint(1, nN)
                    rhs += [-x, pool + 1 + (x % 2) + (2 if r.random() < 0.1 else 0)]
                prods.append((k, rhs))
            if k not in many and k < nN and r.random() < 0.5:
                prods.append((k, [r.choice([t for t in range(1, pool + 1) if t not in heads]), -(k + 1), pool + 1 + (k + 1) % 2]))
            if k > 1 and r.random() < 0.3:
                prods.append((k, []))
        # everything is used
        used = {-x for _, rhs in prods for x in rhs if x < 0} | {1}
        if len(used) < nN:
            continue
        g = grammar(prods, sorted(r.sample(range(1, nN + 1), r.choice([1, 1, 2, 3]))) if r.random() < 0.5 else [1], nT=nT, nN=nN)
        if len(gram.reachable(g)) < nN:
            g["entries"] = sorted(set(g["entries"]) | set(range(1, nN + 1)) - gram.reachable(g))
        try:
            s, c, _ = gram.lr1(g, 900)
        except gram.TooBig:
            continue
        if c:
            continue
        setup(g, r, "language (%d states)" % s)
        g["cover"] = 0
        g["big"] = True
        out.append(fresh_names(g, r))
    return out


_here = os.path.dirname(os.path.abspath(__file__))


def load(name):
    with open(os.path.join(_here, name)) as f:
        return json.load(f)


def plain(d):
    return gram.grammar([(l, [x if x <= d["nT"] else d["nT"] - x for x in q]) for l, q in d["prods"]], d["entries"], nT=d["nT"], nN=d["nN"])


def selected(r, share=1.0):
    """Grammars chosen because they tell the right generator from faulty ones (dev/select.py)."""
    ds = load("selected.json")
    if share < 1:
        ds = r.sample(ds, int(share * len(ds)))
    return [fresh_names(setup(plain(d), r, "selected"), r) for d in ds]


def selected_conflicts(r):
    """Grammars with conflicts of every make (dev/select_conflicts.py)."""
    return [fresh_names(setup(plain(d), r, "selected " + d["kind"]), r) for d in load("selected_conflicts.json")]


def first_chains(r, n, lo=4, hi=13):
    """Conflict-free grammars in which what can follow something is known only after going through a
    long chain of non-terminals, declared in an order that helps, hinders or neither."""
    out, tries = [], 0
    while len(out) < n and tries < 200 * n:
        tries += 1
        k = r.randint(lo, hi)
        nT = 5
        chain = list(range(3, 3 + k))                    # roles: 1 start, 2 what comes before, 3.. the chain
        prods = [(2, r.choice([[], [1], [-2, 1], [1, -2]])), (2, r.choice([[], [1], [2], [-2, 2]]))]
        prods.append((1, r.choice([[-2, -3], [-2, -3], [-2, -3, 3], [-2, -3, -3], [-2, -2, -3]])))
        if r.random() < 0.3:
            prods.append((1, r.choice([[4], [-1, 5], []])))
        for i in chain:
            last = i == chain[-1]
            if last:
                prods.append((i, r.choice([[3], [4], [3, 4], []])))
                if r.random() < 0.5:
                    prods.append((i, r.choice([[5], [], [4, -i]])))
                continue
            step = r.choice(["unit", "unit", "unit", "null", "tail", "head"])
            j = i + 1
            if step == "unit":
                prods.append((i, [-j]))
            elif step == "tail":
                prods.append((i, [-j, r.choice([3, 4, 5])]))
            elif step == "head":
                prods.append((i, [-j, -chain[-1]]))
            else:
                prods.append((i, [-2, -j]))
            if r.random() < 0.15:
                prods.append((i, r.choice([[], [5], [4], [3]])))
        prods = [p for i, p in enumerate(prods) if p not in prods[:i]]
        order = list(range(2, 3 + k))
        x = r.random()
        if x < 0.4:
            order.reverse()
        elif x < 0.5:
            r.shuffle(order)
        order.insert(r.choice([0, 0, len(order), r.randint(0, len(order))]), 1)
        new = {old: i for i, old in enumerate(order, 1)}
        prods = sorted([(new[l], [-new[-y] if y < 0 else y for y in rhs]) for l, rhs in prods], key=lambda p: p[0])
        g = grammar(prods, [new[1]], nT=nT, nN=len(order))
        Y = gram.yields(g)
        if any(Y[q] is None for q in range(1, g["nN"] + 1)):
            continue
        try:
            s, c, _ = gram.lr1(g, 200)
        except gram.TooBig:
            continue
        if c:
            continue
        if r.random() < 0.3:
            g["entries"] = r.sample(range(1, g["nN"] + 1), 2)
        out.append(fresh_names(setup(g, r, "first_chain"), r))
    return out


def random_conflict(r, n, want):
    """Grammars with a conflict of that kind, few conflicting cells preferred."""
    out, seen, tries = [], set(), 0
    while len(out) < n and tries < 400 * n + 4000:
        tries += 1
        g = gram.random_grammar(r)
        if r.random() < 0.3:
            k = r.randint(1, min(3, g["nN"]))
            g["entries"] = r.sample(range(1, g["nN"] + 1), k)
        key = str(g["prods"]) + str(g["entries"])
        if key in seen:
            continue
        Y = gram.yields(g)
        if any(Y[k] is None for k in range(1, g["nN"] + 1)) or len(gram.reachable(g)) < g["nN"]:
            continue
        try:
            s, c, tab = gram.lr1(g, 150)
        except gram.TooBig:
            continue
        if want not in c:
            continue
        cells = sum(1 for go, red in tab for t, ps in red.items() if len(ps) > 1 or (t and t in go))
        if cells > 1 and r.random() < 0.85:
            continue
        seen.add(key)
        out.append(fresh_names(setup(g, r, "random %s, %d cells" % (want, cells)), r))
    return out


def words_of_all(g, r, per):
    """Sentences of every non-terminal, public or not."""
    Y = gram.yields(g)
    out = set()
    for k in range(1, g["nN"] + 1):
        if Y[k] is None:
            continue
        for _ in range(per):
            out.add(tuple(gram.derive(g, r, k, r.randint(0, 8), Y)[:40]))
    return out


def endless(g, r, n):
    """(entry, items, index to go back to): streams with a token that cannot continue."""
    out = []
    exp = g["cls"]["exp"]
    cells = list(g.get("cells") or [])
    r.shuffle(cells)
    for c in cells[:n]:
        bad = [t for t in range(1, g["nT"] + 1) if t not in exp[c["s"] - 1]]
        if not bad:
            continue
        x = list(c["pre"]) + [r.choice(bad)]
        cyc = len(x)
        if r.random() < 0.5:
            x += [r.randint(1, g["nT"]) for _ in range(r.randint(1, 4))]
        if r.random() < 0.15:
            x[cyc - 1] = -r.randint(1, 9)
        if r.random() < 0.3:
            cyc = r.randint(1, len(x))
        out.append((c["e"], x, cyc))
    return out


PUMPS = [      # grammar, inputs with %d, %h (half)
    ("S -> S a | a", ["( 1 )*{n}", "( 1 )*{n} -5", "( 1 )*{n} 0"]),
    ("S -> a S | a", ["( 1 )*{n}", "( 1 )*{n} -7"]),
    ("S -> a S b | ", ["( 1 )*{n} ( 2 )*{n}", "( 1 )*{n} ( 2 )*{m}", "( 1 )*{n} ( 2 )*{n} 2"]),
    ("S -> S ( S ) | ", ["( 1 2 )*{n}", "( 1 )*{n} ( 2 )*{n}", "( 1 )*{n}"]),
    ("S -> ( S ) S | [ S ] S | ", ["( 1 3 4 2 )*{n}", "( 1 3 )*{n} ( 4 2 )*{n}"]),
    ("E -> E + T | T ; T -> T * F | F ; F -> ( E ) | id", ["5 ( 1 5 2 5 )*{n}", "( 3 )*{n} 5 ( 4 )*{n}", "( 3 )*{n} 5 ( 4 )*{m}", "5 ( 1 5 )*{n} 1"]),
    ("S -> a S O | a ; O -> ", ["( 1 )*{n}"]),
    ("S -> A S b | c ; A -> a", ["( 1 )*{n} 2 ( 3 )*{n}"]),
    ("S -> a O S | a ; O -> P ; P -> ", ["( 1 )*{n}"]),
    ("E -> \\ id . E | A ; A -> A P | P ; P -> id | ( E )", ["( 1 2 3 )*{n} 2", "2 ( 2 )*{n}"]),
    ("S -> S S | a", ["( 1 )*{n}"]),
    ("S -> i S | i S e S | o", ["( 1 )*{n} 3", "( 1 1 3 2 )*{n} 3"]),
    ("E -> - E | E + E | id", ["( 1 )*{n} 3", "3 ( 2 3 )*{n}"]),
    ("S -> A A A A | ; A -> a A | b", ["( 1 )*{n} 2 ( 1 )*{n} 2 ( 1 )*{n} 2 ( 1 )*{n} 2"]),
]


def pumped(r, n):
    out = []
    for text, ins in PUMPS:
        g = setup(from_text(text), r, text)
        g["tk"] = [min(k, 1) for k in g["tk"]]
        g["simple_types"] = True
        g["cover"] = 0
        g["cells"] = []
        ws = []
        for w in ins:
            k = n // max(1, sum(len(part.split()) for part in w.split("(")[1:] if ")*" in part) or 1)
            ws.append(w.format(n=max(2, k), m=max(1, k - 1)))
        g["words"] = ws
        out.append(g)
    return out
