"""Grammars as plain data: construction, random generation, and a small LR(1) builder that is used
only to *select* grammars and inputs worth looking at (e.g. enough conflict-free ones).  No verdict
depends on it: whether a grammar has conflicts, and how its parser has to behave, is decided by the
TLA+ specification.

A grammar is a dict: nT, nN, prods [{lhs, rhs, bind}], entries, names, tk (see spec/CFG.tla).
Terminals are 1..nT, non-terminal k is nT + k, 0 is the end of the input.
"""
import random


def grammar(prods, entries=(1,), nT=None, nN=None, names=None, tk=None, bind=None):
    """prods: list of (lhs, rhs) with rhs symbols as ints, negative = non-terminal number."""
    nN = nN or max([l for l, _ in prods] + [-x for _, r in prods for x in r if x < 0])
    nT = nT if nT is not None else max([1] + [x for _, r in prods for x in r if x > 0])
    g = {
        "nT": nT,
        "nN": nN,
        "prods": [
            {"lhs": l, "rhs": [nT - x if x < 0 else x for x in r],
             "bind": list(bind[i]) if bind else [1] * len(r), "lab": i + 1}
            for i, (l, r) in enumerate(prods)
        ],
        "entries": list(entries),
        "names": names or ["t%d" % t for t in range(1, nT + 1)],
        "tk": tk or [1] * nT,
        "cover": 1,
    }
    return g


def from_text(text, entries=None, tk=None):
    """'S -> A b | ; A -> a' : upper-case initials are non-terminals; the first one is the entry
    unless some are marked with a leading '*'."""
    rules = []
    nts = {}
    stars = []
    for rule in [r.strip() for r in text.split(";")]:
        if not rule:
            continue
        lhs, rhs = rule.split("->")
        lhs = lhs.strip()
        if lhs.startswith("*"):
            lhs = lhs[1:]
            stars.append(lhs)
        nts.setdefault(lhs, len(nts) + 1)
        for alt in rhs.split("|"):
            rules.append((lhs, alt.split()))
    ts = {}
    for _, alt in rules:
        for x in alt:
            if x not in nts and not x[0].isupper():
                ts.setdefault(x, len(ts) + 1)
    prods = [(nts[l], [ts[x] if x in ts else -nts[x] for x in alt]) for l, alt in rules]
    ents = entries or [nts[x] for x in stars] or [1]
    return grammar(prods, ents, nT=max(1, len(ts)), nN=len(nts),
                   names=list(ts) or ["t1"], tk=tk)


# ---------------------------------------------------------------------------------------------
# heuristics

def first_sets(g):
    nT = g["nT"]
    first = [set() for _ in range(g["nN"] + 1)]
    null = [False] * (g["nN"] + 1)
    ch = True
    while ch:
        ch = False
        for p in g["prods"]:
            k = p["lhs"]
            for x in p["rhs"]:
                if x <= nT:
                    if x not in first[k]:
                        first[k].add(x); ch = True
                    break
                j = x - nT
                if not first[j] <= first[k]:
                    first[k] |= first[j]; ch = True
                if not null[j]:
                    break
            else:
                if not null[k]:
                    null[k] = True; ch = True
    return first, null


def yields(g):
    """Shortest strings, [None, ...] by non-terminal number; None if unproductive."""
    nT = g["nT"]
    Y = [None] * (g["nN"] + 1)
    ch = True
    while ch:
        ch = False
        for p in g["prods"]:
            s = []
            for x in p["rhs"]:
                if x <= nT:
                    s.append(x)
                elif Y[x - nT] is None:
                    s = None
                    break
                else:
                    s += Y[x - nT]
            if s is not None and (Y[p["lhs"]] is None or len(s) < len(Y[p["lhs"]])):
                Y[p["lhs"]] = s
                ch = True
    return Y


def reachable(g):
    seen = set(g["entries"])
    todo = list(seen)
    while todo:
        k = todo.pop()
        for p in g["prods"]:
            if p["lhs"] == k:
                for x in p["rhs"]:
                    if x > g["nT"] and x - g["nT"] not in seen:
                        seen.add(x - g["nT"])
                        todo.append(x - g["nT"])
    return seen


class TooBig(Exception):
    pass


def lr1(g, max_states=400):
    """(number of states, set of conflict kinds, states)"""
    nT, nN = g["nT"], g["nN"]
    first, null = first_sets(g)
    rhs = [None] + [p["rhs"] for p in g["prods"]] + [[nT + e] for e in g["entries"]]
    lhs = [None] + [p["lhs"] for p in g["prods"]]
    by = [[] for _ in range(nN + 1)]
    for i, p in enumerate(g["prods"], 1):
        by[p["lhs"]].append(i)
    np = len(g["prods"])

    def rest(p, d):
        f = set()
        for x in rhs[p][d + 1:]:
            if x <= nT:
                f.add(x)
                return f, False
            f |= first[x - nT]
            if not null[x - nT]:
                return f, False
        return f, True

    cache = {}

    def close(ker):
        la = {}
        work = list(ker)
        while work:
            p, d, LA = work.pop()
            if d < len(rhs[p]) and rhs[p][d] > nT:
                if (p, d) not in cache:
                    cache[(p, d)] = rest(p, d)
                f, n = cache[(p, d)]
                s = f | LA if n else f
                k = rhs[p][d] - nT
                if k not in la:
                    la[k] = set()
                    new = True
                else:
                    new = not s <= la[k]
                if new:
                    la[k] |= s
                    for q in by[k]:
                        work.append((q, 0, frozenset(la[k])))
        items = list(ker)
        for k, s in la.items():
            for q in by[k]:
                items.append((q, 0, frozenset(s)))
        return items

    states, idx, conf = [], {}, set()
    gotos = []
    for i in range(len(g["entries"])):
        ker = frozenset([(np + 1 + i, 0, frozenset([0]))])
        idx[ker] = len(states)
        states.append(ker)
    i = 0
    while i < len(states):
        items = close(states[i])
        nxt = {}
        red = {}
        for p, d, LA in items:
            if d < len(rhs[p]):
                nxt.setdefault(rhs[p][d], {}).setdefault((p, d + 1), set()).update(LA)
            else:
                for t in LA:
                    red.setdefault(t, set()).add(p)
        go = {}
        for x, ks in nxt.items():
            ker = frozenset((p, d, frozenset(s)) for (p, d), s in ks.items())
            if ker not in idx:
                idx[ker] = len(states)
                states.append(ker)
                if len(states) > max_states:
                    raise TooBig()
            go[x] = idx[ker]
        for t, ps in red.items():
            if len(ps) > 1:
                conf.add("RR")
            elif t in go and t != 0:
                conf.add("SR")
        gotos.append((go, red))
        i += 1
    return len(states), conf, gotos


# ---------------------------------------------------------------------------------------------
# random grammars

def random_grammar(r, nT=None, nN=None, maxrhs=None, eps=None, entries=None):
    nT = nT or r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    nN = nN or r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    maxrhs = maxrhs or r.choice([2, 3, 3, 4, 5])
    eps = eps if eps is not None else r.choice([0.0, 0.1, 0.25, 0.4])
    pn = r.choice([0.3, 0.5, 0.65])
    prods = []
    seen = set()
    for k in range(1, nN + 1):
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            if r.random() < eps:
                rhs = []
            else:
                rhs = [-r.randint(1, nN) if r.random() < pn else r.randint(1, nT)
                       for _ in range(r.randint(1, maxrhs))]
            if (k, tuple(rhs)) not in seen:
                seen.add((k, tuple(rhs)))
                prods.append((k, rhs))
    r.shuffle(prods)
    prods.sort(key=lambda p: p[0])       # a non-terminal's productions are declared together
    ents = entries or [1]
    return grammar(prods, ents, nT=nT, nN=nN)


def derive(g, r, k, budget, Y, deep=0.0):
    """A random sentence of non-terminal k of roughly at most `budget` tokens."""
    nT = g["nT"]
    by = {}
    for p in g["prods"]:
        by.setdefault(p["lhs"], []).append(p["rhs"])
    cost = lambda rhs: sum(1 if x <= nT else len(Y[x - nT]) for x in rhs)
    ok = lambda rhs: all(x <= nT or Y[x - nT] is not None for x in rhs)
    out = []
    stack = [nT + k]
    steps = 0
    while stack:
        x = stack.pop()
        if x <= nT:
            out.append(x)
            continue
        steps += 1
        alts = [a for a in by.get(x - nT, []) if ok(a)]
        pending = sum(1 if y <= nT else len(Y[y - nT]) for y in stack)
        room = budget - len(out) - pending
        fit = [a for a in alts if cost(a) <= room]
        if steps > 40 + 4 * budget:
            out += Y[x - nT]
            continue
        if deep and len(fit) > 1 and r.random() < deep:
            fit = [a for a in fit if any(y > nT for y in a)] or fit
        a = r.choice(fit) if fit else min(alts, key=lambda a: (cost(a), len(a)))
        stack.extend(reversed(a))
    return out


def mutate(g, r, w):
    """A token string near w."""
    w = list(w)
    nT = g["nT"]
    for _ in range(r.choice([1, 1, 1, 2])):
        op = r.randrange(6)
        i = r.randrange(len(w) + 1)
        if op == 0:
            w.insert(i, r.randint(1, nT))
        elif op == 1 and w:
            del w[min(i, len(w) - 1)]
        elif op == 2 and w:
            w[min(i, len(w) - 1)] = r.randint(1, nT)
        elif op == 3:
            w = w[:i]
        elif op == 4 and len(w) > 1:
            i = min(i, len(w) - 2)
            w[i], w[i + 1] = w[i + 1], w[i]
        else:
            j = r.randrange(len(w) + 1)
            w = w[:i] + w[j:]
    return w
