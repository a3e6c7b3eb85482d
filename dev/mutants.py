"""Faulty LR(1) generators, used to choose grammars that tell them from the right one (dev/select.py).
No check uses this file, and no verdict depends on it."""
import sys
sys.path.insert(0, "/verif/lib")
import gram


class Gen:
    """The right one.  Mutants override pieces."""
    max_states = 160

    def __init__(self, g):
        self.g = g
        self.nT, self.nN = g["nT"], g["nN"]
        self.np = len(g["prods"])
        self.rhs = [None] + [p["rhs"] for p in g["prods"]] + [[self.nT + e] for e in g["entries"]]
        self.lhs = [None] + [p["lhs"] for p in g["prods"]]
        self.by = [[] for _ in range(self.nN + 1)]
        for i, p in enumerate(g["prods"], 1):
            self.by[p["lhs"]].append(i)
        self.first()

    # -- FIRST

    def first_prods(self):
        return [(p["lhs"], p["rhs"]) for p in self.g["prods"]]

    def first(self):
        self.F = [set() for _ in range(self.nN + 1)]
        self.N = [False] * (self.nN + 1)
        k = 0
        while self.sweep():
            k += 1
            if k > 500:
                break

    def sweep(self):
        ch = False
        for k, rhs in self.first_prods():
            ch |= self.visit(k, rhs)
        return ch

    def visit(self, k, rhs):
        ch = False
        for x in rhs:
            if x <= self.nT:
                ch |= self.addF(k, {x})
                return ch
            j = x - self.nT
            ch |= self.addF(k, self.F[j])
            if not self.N[j]:
                return ch
        ch |= self.setN(k)
        return ch

    def addF(self, k, s):
        if s <= self.F[k]:
            return False
        self.F[k] |= s
        return True

    def setN(self, k):
        if self.N[k]:
            return False
        self.N[k] = True
        return True

    # -- what can follow in an item

    def rest(self, p, d):
        f = set()
        for x in self.rhs[p][d + 1:]:
            if x <= self.nT:
                f.add(x)
                return f, False
            f |= self.F[x - self.nT]
            if not self.N[x - self.nT]:
                return f, False
        return f, True

    def follow(self, p, d, LA):
        f, n = self.rest(p, d)
        return f | LA if n else f

    # -- states: {(p, d): LA}

    def prods_of(self, k):
        return self.by[k]

    def close(self, ker):
        items = {i: set(s) for i, s in ker.items()}
        work = list(ker)
        while work:
            p, d = work.pop()
            if d < len(self.rhs[p]) and self.rhs[p][d] > self.nT:
                s = self.follow(p, d, items[(p, d)])
                for q in self.prods_of(self.rhs[p][d] - self.nT):
                    old = items.get((q, 0))
                    if old is None:
                        items[(q, 0)] = set(s)
                        work.append((q, 0))
                    elif not s <= old:
                        old |= s
                        work.append((q, 0))
        return items

    def key(self, ker, items):
        return frozenset((i, frozenset(s)) for i, s in ker.items())

    def found(self, i, ker, items):
        """state i is taken for the one reached"""

    def build(self):
        self.idx, self.kers, self.items, self.go = {}, [], [], []
        for e in range(len(self.g["entries"])):
            self.state({(self.np + 1 + e, 0): {0}})
        i = 0
        while i < len(self.kers):
            nxt = {}
            for (p, d), LA in self.items[i].items():
                if d < len(self.rhs[p]):
                    nxt.setdefault(self.rhs[p][d], {}).setdefault((p, d + 1), set()).update(LA)
            for x in sorted(nxt):
                self.go[i][x] = self.state(nxt[x])
            i += 1
            if i > 4000:
                raise gram.TooBig()
        return [self.row(i) for i in range(len(self.kers))], [dict((x, j) for x, j in go.items() if x > self.nT) for go in self.go]

    def state(self, ker):
        items = self.close(ker)
        k = self.key(ker, items)
        if k in self.idx:
            self.found(self.idx[k], ker, items)
            return self.idx[k]
        self.idx[k] = len(self.kers)
        self.kers.append(ker)
        self.items.append(items)
        self.go.append({})
        if len(self.kers) > self.max_states:
            raise gram.TooBig()
        return self.idx[k]

    # -- rows: terminal -> set of actions

    def row(self, i):
        row = {}
        for (p, d), LA in self.items[i].items():
            if d == len(self.rhs[p]):
                for t in self.reduces(i, p, LA):
                    row.setdefault(t, set()).add(("r", p) if p <= self.np else ("a", p))
            elif self.rhs[p][d] <= self.nT:
                row.setdefault(self.rhs[p][d], set()).add(("s", self.go[i][self.rhs[p][d]]))
        return row

    def reduces(self, i, p, LA):
        return LA


def differs(a, b, g):
    """a, b: (rows, gotos).  Where the behaviour of b differs: None, or a kind"""
    (ra, ga), (rb, gb) = a, b
    seen = {(i, i) for i in range(len(g["entries"]))}
    todo = list(seen)
    while todo:
        i, j = todo.pop()
        A, B = ra[i], rb[j]
        if set(A) != set(B):
            return "more" if set(A) < set(B) else "less"
        for t in A:
            if len(B[t]) != len(A[t]):
                return "conflict"
            x = next(iter(A[t])) if len(A[t]) == 1 else None
            y = next(iter(B[t])) if len(B[t]) == 1 else None
            if x is None or y is None:
                continue
            if x[0] != y[0] or (x[0] == "r" and x != y):
                return "other"
            if x[0] == "s":
                n = (x[1], y[1])
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        if set(ga[i]) != set(gb[j]):
            return "goto"
        for x in ga[i]:
            n = (ga[i][x], gb[j][x])
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return None


M = {}


def mutant(c):
    M[c.__name__] = c
    return c


# ---- FIRST -------------------------------------------------------------------------------------

@mutant
class self_at_start_skipped(Gen):
    def visit(self, k, rhs):
        ch = False
        for x in rhs:
            if x == self.nT + k:
                return ch
            if x <= self.nT:
                return self.addF(k, {x}) | ch
            ch |= self.addF(k, self.F[x - self.nT])
            if not self.N[x - self.nT]:
                return ch
        return self.setN(k) | ch


@mutant
class self_first_skipped(Gen):
    def visit(self, k, rhs):
        if rhs and rhs[0] == self.nT + k:
            return False
        return Gen.visit(self, k, rhs)


@mutant
class recursive_skipped(Gen):
    def visit(self, k, rhs):
        if self.nT + k in rhs:
            return False
        return Gen.visit(self, k, rhs)


def upto(n):
    class m(Gen):
        def visit(self, k, rhs):
            ch = False
            for c, x in enumerate(rhs):
                if c == n:
                    return ch
                if x <= self.nT:
                    return self.addF(k, {x}) | ch
                ch |= self.addF(k, self.F[x - self.nT])
                if not self.N[x - self.nT]:
                    return ch
            return self.setN(k) | ch
    m.__name__ = "first_of_%d" % n
    mutant(m)


for n in (1, 2, 3, 4):
    upto(n)


def sweeps(n):
    class m(Gen):
        def first(self):
            self.F = [set() for _ in range(self.nN + 1)]
            self.N = [False] * (self.nN + 1)
            for _ in range(n):
                self.sweep()
    m.__name__ = "sweeps_%d" % n
    mutant(m)

    class m2(Gen):
        def first(self):
            self.F = [set() for _ in range(self.nN + 1)]
            self.N = [False] * (self.nN + 1)
            for _ in range(n):
                for k, rhs in reversed(self.first_prods()):
                    self.visit(k, rhs)
    m2.__name__ = "sweeps_back_%d" % n
    mutant(m2)


for n in (1, 2, 3, 4, 5, 6):
    sweeps(n)


@mutant
class empty_is_no_change(Gen):
    def setN(self, k):
        Gen.setN(self, k)
        return False


@mutant
class only_empty_is_change(Gen):
    def addF(self, k, s):
        Gen.addF(self, k, s)
        return False


@mutant
class last_change_counts(Gen):
    def sweep(self):
        ch = False
        for k, rhs in self.first_prods():
            ch = self.visit(k, rhs)
        return ch


@mutant
class first_change_counts(Gen):
    def sweep(self):
        ch = None
        for k, rhs in self.first_prods():
            c = self.visit(k, rhs)
            ch = c if ch is None else ch
        return ch


@mutant
class one_symbol_change_only(Gen):
    """what later symbols add does not count as a change"""
    def visit(self, k, rhs):
        ch = False
        for c, x in enumerate(rhs):
            if x <= self.nT:
                v = self.addF(k, {x})
                return ch | (v if c == 0 else False)
            v = self.addF(k, self.F[x - self.nT])
            ch |= v if c == 0 else False
            if not self.N[x - self.nT]:
                return ch
        return self.setN(k) | ch


@mutant
class empty_directly_only(Gen):
    def visit(self, k, rhs):
        ch = False
        for x in rhs:
            if x <= self.nT:
                return self.addF(k, {x}) | ch
            ch |= self.addF(k, self.F[x - self.nT])
            if not self.N[x - self.nT]:
                return ch
        return (self.setN(k) if not rhs else False) | ch


@mutant
class empty_if_last_is(Gen):
    def visit(self, k, rhs):
        ch = Gen.visit(self, k, rhs)
        if rhs and rhs[-1] > self.nT and self.N[rhs[-1] - self.nT]:
            ch |= self.setN(k)
        return ch


@mutant
class empty_if_some_is(Gen):
    def visit(self, k, rhs):
        ch = Gen.visit(self, k, rhs)
        if any(x > self.nT and self.N[x - self.nT] for x in rhs):
            ch |= self.setN(k)
        return ch


@mutant
class empty_unit_not(Gen):
    """a unit production does not pass on emptiness"""
    def visit(self, k, rhs):
        if len(rhs) == 1 and rhs[0] > self.nT:
            return self.addF(k, self.F[rhs[0] - self.nT])
        return Gen.visit(self, k, rhs)


@mutant
class empty_long_not(Gen):
    """a production of several symbols does not pass on emptiness"""
    def visit(self, k, rhs):
        n = self.N[k]
        ch = Gen.visit(self, k, rhs)
        if len(rhs) > 1 and not n and self.N[k]:
            self.N[k] = False
            ch = False
        return ch

    def first(self):
        self.F = [set() for _ in range(self.nN + 1)]
        self.N = [False] * (self.nN + 1)
        for _ in range(30):
            self.sweep()


@mutant
class own_terminals_lost_if_empty(Gen):
    """the FIRST set of something that may be empty is not passed on"""
    def visit(self, k, rhs):
        ch = False
        for x in rhs:
            if x <= self.nT:
                return self.addF(k, {x}) | ch
            if not self.N[x - self.nT]:
                return self.addF(k, self.F[x - self.nT]) | ch
        return self.setN(k) | ch


@mutant
class after_empty_production_nothing(Gen):
    def first_prods(self):
        out, done = [], set()
        for k, rhs in Gen.first_prods(self):
            if k not in done:
                out.append((k, rhs))
            if not rhs:
                done.add(k)
        return out


@mutant
class after_left_recursion_nothing(Gen):
    def first_prods(self):
        out, done = [], set()
        for k, rhs in Gen.first_prods(self):
            if k not in done:
                out.append((k, rhs))
            if rhs and rhs[0] == self.nT + k:
                done.add(k)
        return out


def dfs(name, order, guard_memo, late):
    class m(Gen):
        def first(self):
            self.F = [set() for _ in range(self.nN + 1)]
            self.N = [False] * (self.nN + 1)
            if late:                       # emptiness right, terminals by depth-first search
                h = Gen(self.g)
                self.N = list(h.N)
            done, busy = set(), set()

            def go(k):
                if k in done or k in busy:
                    return
                busy.add(k)
                for q in self.by[k]:
                    rhs = self.rhs[q]
                    for x in rhs:
                        if x <= self.nT:
                            self.F[k].add(x)
                            break
                        j = x - self.nT
                        go(j)
                        self.F[k] |= self.F[j]
                        if not self.N[j]:
                            break
                    else:
                        self.N[k] = True
                busy.discard(k)
                if guard_memo:
                    done.add(k)
            ks = list(range(1, self.nN + 1))
            if order == "back":
                ks.reverse()
            for k in ks:
                go(k)
    m.__name__ = name
    mutant(m)


dfs("dfs_memo", "fwd", True, False)
dfs("dfs_memo_back", "back", True, False)
dfs("dfs_memo_late", "fwd", True, True)
dfs("dfs_memo_late_back", "back", True, True)
dfs("dfs_guard_late", "fwd", False, True)


@mutant
class worklist_first_symbols(Gen):
    """revisits only what begins with the non-terminal that changed"""
    def first(self):
        self.F = [set() for _ in range(self.nN + 1)]
        self.N = [False] * (self.nN + 1)
        work = list(range(1, self.nN + 1))
        while work:
            k = work.pop(0)
            ch = False
            for q in self.by[k]:
                ch |= self.visit(k, self.rhs[q])
            if ch:
                for p in self.g["prods"]:
                    if p["rhs"] and p["rhs"][0] == self.nT + k and p["lhs"] not in work:
                        work.append(p["lhs"])


@mutant
class empty_then_one_pass(Gen):
    """emptiness first, then the terminals in one pass in topological order of first symbols"""
    def first(self):
        h = Gen(self.g)
        self.N = list(h.N)
        self.F = [set() for _ in range(self.nN + 1)]
        for _ in range(self.nN):
            for p in self.g["prods"]:
                k = p["lhs"]
                for x in p["rhs"]:
                    if x <= self.nT:
                        self.F[k].add(x)
                        break
                    self.F[k] |= self.F[x - self.nT]
                    break


# ---- what follows in an item -------------------------------------------------------------------

def rest_mutant(name, f):
    m = type(name, (Gen,), {"follow": f})
    mutant(m)


def _next_only(self, p, d, LA):
    r = self.rhs[p][d + 1:]
    if not r:
        return set(LA)
    x = r[0]
    if x <= self.nT:
        return {x}
    return self.F[x - self.nT] | (LA if self.N[x - self.nT] else set())


def _two(self, p, d, LA):
    f = set()
    for c, x in enumerate(self.rhs[p][d + 1:]):
        if c == 2:
            return f | LA
        if x <= self.nT:
            return f | {x}
        f |= self.F[x - self.nT]
        if not self.N[x - self.nT]:
            return f
    return f | LA


def _one_no_la(self, p, d, LA):
    r = self.rhs[p][d + 1:]
    if not r:
        return set(LA)
    x = r[0]
    return {x} if x <= self.nT else set(self.F[x - self.nT])


def _no_la_through_empty(self, p, d, LA):
    f, n = self.rest(p, d)
    return set(LA) if d + 1 == len(self.rhs[p]) else f


def _la_instead(self, p, d, LA):
    f, n = self.rest(p, d)
    return set(LA) if n else f


def _end_lost_through_empty(self, p, d, LA):
    f, n = self.rest(p, d)
    return f | (LA if d + 1 == len(self.rhs[p]) else LA - {0}) if n else f


def _only_end_through_empty(self, p, d, LA):
    f, n = self.rest(p, d)
    return f | (LA if d + 1 == len(self.rhs[p]) else LA & {0}) if n else f


def _always_la_if_last_empty(self, p, d, LA):
    f, n = self.rest(p, d)
    r = self.rhs[p]
    return f | LA if n or (r[-1] > self.nT and d + 1 < len(r) and self.N[r[-1] - self.nT]) else f


def _la_if_next_empty(self, p, d, LA):
    f, n = self.rest(p, d)
    r = self.rhs[p]
    return f | LA if n or (d + 1 < len(r) and r[d + 1] > self.nT and self.N[r[d + 1] - self.nT]) else f


def _self_follow_lost(self, p, d, LA):
    """A -> . A x adds nothing to itself"""
    r = self.rhs[p]
    if p <= self.np and d == 0 and r[0] == self.nT + self.lhs[p]:
        return set(LA)
    return Gen.follow(self, p, d, LA)


def _same_nt_again_skipped(self, p, d, LA):
    """the same non-terminal twice in a row"""
    r = self.rhs[p]
    if d + 1 < len(r) and r[d + 1] == r[d]:
        f, n = set(), True
        for x in r[d + 2:]:
            if x <= self.nT:
                return f | {x}
            f |= self.F[x - self.nT]
            if not self.N[x - self.nT]:
                return f
        return f | LA
    return Gen.follow(self, p, d, LA)


def _empty_ones_skipped(self, p, d, LA):
    """what may be empty is passed over"""
    for x in self.rhs[p][d + 1:]:
        if x <= self.nT:
            return {x}
        if not self.N[x - self.nT]:
            return set(self.F[x - self.nT])
    return set(LA)


def _empty_middle_skipped(self, p, d, LA):
    f = set()
    for c, x in enumerate(self.rhs[p][d + 1:]):
        if x <= self.nT:
            return f | {x}
        if not (self.N[x - self.nT] and c > 0):
            f |= self.F[x - self.nT]
        if not self.N[x - self.nT]:
            return f
    return f | LA


for _f in (_next_only, _two, _one_no_la, _no_la_through_empty, _la_instead, _end_lost_through_empty, _only_end_through_empty,
           _always_la_if_last_empty, _la_if_next_empty, _self_follow_lost, _same_nt_again_skipped, _empty_ones_skipped,
           _empty_middle_skipped):
    rest_mutant("follow" + _f.__name__, _f)


# ---- closure -----------------------------------------------------------------------------------

def closure_levels(n):
    class m(Gen):
        def close(self, ker):
            items = {i: set(s) for i, s in ker.items()}
            for _ in range(n):
                new = {i: set(s) for i, s in items.items()}
                for (p, d), LA in items.items():
                    if d < len(self.rhs[p]) and self.rhs[p][d] > self.nT:
                        s = self.follow(p, d, LA)
                        for q in self.prods_of(self.rhs[p][d] - self.nT):
                            new.setdefault((q, 0), set()).update(s)
                items = new
            return items
    m.__name__ = "closure_%d_levels" % n
    mutant(m)


for n in (1, 2, 3, 4, 5, 6):
    closure_levels(n)


def closure_work(name, lifo, requeue, merge, kernel_first=False):
    class m(Gen):
        def close(self, ker):
            items = {i: set(s) for i, s in ker.items()}
            work = sorted(ker)
            while work:
                p, d = work.pop() if lifo else work.pop(0)
                if d < len(self.rhs[p]) and self.rhs[p][d] > self.nT:
                    s = self.follow(p, d, items[(p, d)])
                    for q in self.prods_of(self.rhs[p][d] - self.nT):
                        old = items.get((q, 0))
                        if old is None:
                            items[(q, 0)] = set(s)
                            work.append((q, 0))
                        elif not s <= old and merge:
                            old |= s
                            if requeue:
                                work.append((q, 0))
            return items
    m.__name__ = name
    mutant(m)


closure_work("closure_merge_not_requeued_fifo", False, False, True)
closure_work("closure_merge_not_requeued_lifo", True, False, True)
closure_work("closure_first_come_fifo", False, False, False)
closure_work("closure_first_come_lifo", True, False, False)


@mutant
class closure_each_nt_once(Gen):
    """the look-aheads of all items before a non-terminal in the kernel only"""
    def close(self, ker):
        items = {i: set(s) for i, s in ker.items()}
        done = set()
        work = sorted(ker)
        while work:
            p, d = work.pop(0)
            if d < len(self.rhs[p]) and self.rhs[p][d] > self.nT:
                k = self.rhs[p][d] - self.nT
                s = set()
                for (a, b), LA in items.items():
                    if b < len(self.rhs[a]) and self.rhs[a][b] == self.nT + k:
                        s |= self.follow(a, b, LA)
                for q in self.prods_of(k):
                    items.setdefault((q, 0), set()).update(s)
                    if k not in done:
                        work.append((q, 0))
                done.add(k)
        return items


@mutant
class closure_left_recursion_skipped(Gen):
    def close(self, ker):
        items = {i: set(s) for i, s in ker.items()}
        work = list(ker)
        while work:
            p, d = work.pop()
            if d < len(self.rhs[p]) and self.rhs[p][d] > self.nT:
                if p <= self.np and d == 0 and self.rhs[p][0] == self.nT + self.lhs[p]:
                    continue
                s = self.follow(p, d, items[(p, d)])
                for q in self.prods_of(self.rhs[p][d] - self.nT):
                    old = items.setdefault((q, 0), set())
                    if not s <= old or not s:
                        fresh = not s <= old
                        old |= s
                        if fresh:
                            work.append((q, 0))
        return items


@mutant
class closure_end_not_merged(Gen):
    """the end of the input is not added to an item that is there already"""
    def close(self, ker):
        items = {i: set(s) for i, s in ker.items()}
        work = list(ker)
        while work:
            p, d = work.pop()
            if d < len(self.rhs[p]) and self.rhs[p][d] > self.nT:
                s = self.follow(p, d, items[(p, d)])
                for q in self.prods_of(self.rhs[p][d] - self.nT):
                    old = items.get((q, 0))
                    if old is None:
                        items[(q, 0)] = set(s)
                        work.append((q, 0))
                    else:
                        s2 = s - {0}
                        if not s2 <= old:
                            old |= s2
                            work.append((q, 0))
        return items


@mutant
class closure_empty_items_first_come(Gen):
    def close(self, ker):
        items = Gen.close(self, ker)
        base = M["closure_first_come_fifo"].close(self, ker)
        return {i: base.get(i, s) if i[1] == 0 and not self.rhs[i[0]] else s for i, s in items.items()}


@mutant
class closure_only_first_productions_requeued(Gen):
    def close(self, ker):
        items = {i: set(s) for i, s in ker.items()}
        work = list(ker)
        while work:
            p, d = work.pop()
            if d < len(self.rhs[p]) and self.rhs[p][d] > self.nT:
                s = self.follow(p, d, items[(p, d)])
                for c, q in enumerate(self.prods_of(self.rhs[p][d] - self.nT)):
                    old = items.get((q, 0))
                    if old is None:
                        items[(q, 0)] = set(s)
                        work.append((q, 0))
                    elif not s <= old:
                        old |= s
                        if c == 0:
                            work.append((q, 0))
        return items


# ---- states ------------------------------------------------------------------------------------

class Keyed(Gen):
    """states are found again by less than what they are; the first stays as it is"""


def keyed(name, f):
    mutant(type("key_" + name, (Gen,), {"key": f}))


def full(d):
    return frozenset((i, frozenset(s)) for i, s in d.items())


keyed("core", lambda self, ker, items: frozenset(ker))
keyed("core_if_complete", lambda self, ker, items: frozenset(ker) if all(d == len(self.rhs[p]) for p, d in ker) else full(ker))
keyed("core_if_no_complete", lambda self, ker, items: frozenset(ker) if all(d < len(self.rhs[p]) for p, d in items) else full(ker))
keyed("core_if_single", lambda self, ker, items: frozenset(ker) if len(ker) == 1 else full(ker))
keyed("core_if_several", lambda self, ker, items: frozenset(ker) if len(ker) > 1 else full(ker))
keyed("core_if_dot_1", lambda self, ker, items: frozenset(ker) if all(d == 1 for p, d in ker) else full(ker))
keyed("core_if_dot_2", lambda self, ker, items: frozenset(ker) if all(d >= 2 for p, d in ker) else full(ker))
keyed("core_if_dot_3", lambda self, ker, items: frozenset(ker) if all(d >= 3 for p, d in ker) else full(ker))
keyed("core_if_at_nt", lambda self, ker, items: frozenset(ker) if all(d < len(self.rhs[p]) and self.rhs[p][d] > self.nT for p, d in ker) else full(ker))
keyed("core_if_at_t", lambda self, ker, items: frozenset(ker) if all(d < len(self.rhs[p]) and self.rhs[p][d] <= self.nT for p, d in ker) else full(ker))
keyed("first_item", lambda self, ker, items: (min(ker), frozenset(ker[min(ker)])))
keyed("last_item", lambda self, ker, items: (max(ker), frozenset(ker[max(ker)])))
keyed("least_la", lambda self, ker, items: frozenset((i, min(s)) for i, s in ker.items()))
keyed("greatest_la", lambda self, ker, items: frozenset((i, max(s)) for i, s in ker.items()))
keyed("number_of_la", lambda self, ker, items: frozenset((i, len(s)) for i, s in ker.items()))
keyed("end_la", lambda self, ker, items: frozenset((i, 0 in s) for i, s in ker.items()))
keyed("la_without_end", lambda self, ker, items: frozenset((i, frozenset(s - {0})) for i, s in ker.items()))
keyed("las_together", lambda self, ker, items: (frozenset(ker), frozenset(t for s in ker.values() for t in s)))
keyed("first_la_full", lambda self, ker, items: (frozenset(ker), frozenset(ker[min(ker)])))
keyed("last_la_full", lambda self, ker, items: (frozenset(ker), frozenset(ker[max(ker)])))
keyed("dots_lost", lambda self, ker, items: frozenset((p, frozenset(s)) for (p, d), s in ker.items()))
keyed("sum", lambda self, ker, items: frozenset((p, d, sum(s)) for (p, d), s in ker.items()))
keyed("total_sum", lambda self, ker, items: (frozenset(ker), sum(sum(s) for s in ker.values())))
keyed("complete_las", lambda self, ker, items: (frozenset(items), frozenset((i, frozenset(s)) for i, s in items.items() if i[1] == len(self.rhs[i[0]]))))
keyed("number_of_items", lambda self, ker, items: (frozenset(ker), sum(len(s) for s in items.values())))


class Merging(Gen):
    """states with the same core are merged under some condition"""
    def cond(self, a, b):
        return True

    def state(self, ker):
        for j, k in enumerate(self.kers):
            if set(k) == set(ker):
                if all(ker[i] <= k[i] for i in ker) and all(k[i] == ker[i] for i in ker):
                    return j
                if self.cond(k, ker):
                    for i in ker:
                        k[i] = k[i] | ker[i]
                    self.items[j] = self.close(k)
                    if len(self.kers) > 0 and (j, id(k)):
                        self.again(j)
                    return j
        self.kers.append({i: set(s) for i, s in ker.items()})
        self.items.append(self.close(ker))
        self.go.append({})
        if len(self.kers) > self.max_states:
            raise gram.TooBig()
        return len(self.kers) - 1

    def again(self, j):
        self.dirty.add(j)

    def build(self):
        self.kers, self.items, self.go = [], [], []
        self.dirty = set()
        for e in range(len(self.g["entries"])):
            self.state({(self.np + 1 + e, 0): {0}})
        i = 0
        n = 0
        while True:
            if i < len(self.kers):
                j = i
                i += 1
            elif self.dirty:
                j = self.dirty.pop()
            else:
                break
            self.dirty.discard(j)
            n += 1
            if n > 3000:
                raise gram.TooBig()
            nxt = {}
            for (p, d), LA in self.items[j].items():
                if d < len(self.rhs[p]):
                    nxt.setdefault(self.rhs[p][d], {}).setdefault((p, d + 1), set()).update(LA)
            for x in sorted(nxt):
                self.go[j][x] = self.state(nxt[x])
        return [self.row(i) for i in range(len(self.kers))], [dict((x, j) for x, j in go.items() if x > self.nT) for go in self.go]


def merging(name, f, base=Merging):
    mutant(type("merge_" + name, (base,), {"cond": f}))


merging("all", lambda self, a, b: True)
merging("overlapping", lambda self, a, b: all(a[i] & b[i] for i in a))
merging("some_overlap", lambda self, a, b: any(a[i] & b[i] for i in a))
merging("weakly_compatible", lambda self, a, b: all(
    (not (a[i] & b[j]) and not (a[j] & b[i])) or bool(a[i] & a[j]) or bool(b[i] & b[j]) for i in a for j in a if i < j))
merging("larger", lambda self, a, b: all(b[i] >= a[i] for i in a))
merging("smaller", lambda self, a, b: all(b[i] <= a[i] for i in a))
merging("disjoint_items", lambda self, a, b: len(a) == 1)


@mutant
class superset_found(Gen):
    """a state with the same core and at least these look-aheads is taken"""
    def state(self, ker):
        for j, k in enumerate(self.kers):
            if set(k) == set(ker) and all(ker[i] <= k[i] for i in ker):
                return j
        self.kers.append(ker)
        self.items.append(self.close(ker))
        self.go.append({})
        if len(self.kers) > self.max_states:
            raise gram.TooBig()
        return len(self.kers) - 1


@mutant
class subset_found(Gen):
    def state(self, ker):
        for j, k in enumerate(self.kers):
            if set(k) == set(ker) and all(ker[i] >= k[i] for i in ker):
                return j
        self.kers.append(ker)
        self.items.append(self.close(ker))
        self.go.append({})
        if len(self.kers) > self.max_states:
            raise gram.TooBig()
        return len(self.kers) - 1


def sizes(n):
    class m(Gen):
        def build(self):
            self.idx, self.kers, self.items, self.go = {}, [], [], []
            for e in range(len(self.g["entries"])):
                self.state({(self.np + 1 + e, 0): {0}})
            new = list(range(len(self.kers)))
            for _ in range(n):
                before = len(self.kers)
                for i in new:
                    nxt = {}
                    for (p, d), LA in self.items[i].items():
                        if d < len(self.rhs[p]):
                            nxt.setdefault(self.rhs[p][d], {}).setdefault((p, d + 1), set()).update(LA)
                    for x in sorted(nxt):
                        self.go[i][x] = self.state(nxt[x])
                new = list(range(before, len(self.kers)))
            for i in new:
                self.go[i] = {}
            return [self.row(i) for i in range(len(self.kers))], [dict((x, j) for x, j in go.items() if x > self.nT) for go in self.go]

        def row(self, i):
            row = {}
            for (p, d), LA in self.items[i].items():
                if d == len(self.rhs[p]):
                    for t in LA:
                        row.setdefault(t, set()).add(("r", p) if p <= self.np else ("a", p))
                elif self.rhs[p][d] <= self.nT and self.rhs[p][d] in self.go[i]:
                    row.setdefault(self.rhs[p][d], set()).add(("s", self.go[i][self.rhs[p][d]]))
            return row
    m.__name__ = "expansion_%d_rounds" % n
    mutant(m)


for n in (4, 6, 8, 10):
    sizes(n)


# ---- tables ------------------------------------------------------------------------------------

def table(name, f):
    mutant(type("table_" + name, (Gen,), {"reduces": f}))


def followsets(self):
    if not hasattr(self, "_fo"):
        fo = [set() for _ in range(self.nN + 1)]
        for e in self.g["entries"]:
            fo[e].add(0)
        ch = True
        while ch:
            ch = False
            for p in range(1, self.np + 1):
                for d, x in enumerate(self.rhs[p]):
                    if x > self.nT:
                        f, n = self.rest(p, d)
                        s = f | (fo[self.lhs[p]] if n else set())
                        if not s <= fo[x - self.nT]:
                            fo[x - self.nT] |= s
                            ch = True
        self._fo = fo
    return self._fo


def _slr(self, i, p, LA):
    return LA if p > self.np else followsets(self)[self.lhs[p]]


def _slr_eps(self, i, p, LA):
    return LA if p > self.np or self.rhs[p] else followsets(self)[self.lhs[p]]


def _slr_long(self, i, p, LA):
    return LA if p > self.np or len(self.rhs[p]) < 3 else followsets(self)[self.lhs[p]]


def _default(self, i, p, LA):
    return set(range(self.nT + 1)) if p <= self.np and len(self.items[i]) == 1 else LA


def _default2(self, i, p, LA):
    comp = [q for q, d in self.items[i] if d == len(self.rhs[q])]
    sh = {self.rhs[q][d] for q, d in self.items[i] if d < len(self.rhs[q])}
    return set(range(self.nT + 1)) - sh if p <= self.np and len(comp) == 1 else LA


def _eps_default(self, i, p, LA):
    comp = [q for q, d in self.items[i] if d == len(self.rhs[q])]
    sh = {self.rhs[q][d] for q, d in self.items[i] if d < len(self.rhs[q])}
    return set(range(self.nT + 1)) - sh if p <= self.np and len(comp) == 1 and not self.rhs[p] else LA


def _one_la(self, i, p, LA):
    return {min(LA)}


def _no_end_if_more(self, i, p, LA):
    return LA - {0} if len(LA) > 3 else LA


def _one_reduction(self, i, p, LA):
    comp = sorted(q for q, d in self.items[i] if d == len(self.rhs[q]))
    return LA if p == comp[0] else set()


def _two_reductions(self, i, p, LA):
    comp = sorted(q for q, d in self.items[i] if d == len(self.rhs[q]))
    return LA if p in comp[:2] else set()


def _accept_always(self, i, p, LA):
    return set(range(self.nT + 1)) if p > self.np else LA


for _f in (_slr, _slr_eps, _slr_long, _default, _default2, _eps_default, _one_la, _no_end_if_more, _one_reduction, _two_reductions, _accept_always):
    table(_f.__name__[1:], _f)


@mutant
class goto_by_non_terminal(Gen):
    """the last goto on a non-terminal, if it goes to the same core"""
    def build(self):
        rows, gotos = Gen.build(self)
        last = {}
        for i, go in enumerate(gotos):
            for x, j in go.items():
                last[(x, frozenset(self.kers[j]))] = j
        return rows, [{x: last[(x, frozenset(self.kers[j]))] for x, j in go.items()} for go in gotos]


# ---- more of the same, rarer -------------------------------------------------------------------

def follow_n(n):
    def f(self, p, d, LA):
        s = set()
        for c, x in enumerate(self.rhs[p][d + 1:]):
            if c == n:
                return s
            if x <= self.nT:
                return s | {x}
            s |= self.F[x - self.nT]
            if not self.N[x - self.nT]:
                return s
        return s | LA
    rest_mutant("follow_of_%d" % n, f)


for n in (2, 3, 4):
    follow_n(n)


@mutant
class closure_key_by_lhs(Gen):
    """productions of one non-terminal with the same right-hand side length are taken for the same"""
    def close(self, ker):
        items = Gen.close(self, ker)
        seen = {}
        out = {}
        for (p, d), s in sorted(items.items()):
            if d == 0 and p <= self.np and not self.rhs[p]:
                out[(p, d)] = {min(s)} if len(s) > 4 else s
            else:
                out[(p, d)] = s
        return out


def cap_la(n):
    class m(Gen):
        def close(self, ker):
            return {i: set(sorted(s)[:n]) for i, s in Gen.close(self, ker).items()}
    m.__name__ = "at_most_%d_lookaheads" % n
    mutant(m)


for n in (2, 3, 4, 6):
    cap_la(n)


def big_items(n):
    class m(Gen):
        """states with many items are told apart by their core"""
        def key(self, ker, items):
            return frozenset(ker) if len(items) >= n else full(ker)
    m.__name__ = "core_if_%d_items" % n
    mutant(m)


for n in (4, 8, 12):
    big_items(n)


@mutant
class accept_state_shared(Gen):
    """the state after the start symbol is the one of the first entry"""
    def key(self, ker, items):
        if all(p > self.np for p, d in ker) and all(d == 1 for p, d in ker):
            return "acc"
        return full(ker)


@mutant
class entries_share_expansion(Gen):
    """what is reached by a symbol from a start state is what the first start state reaches, if the core is the same"""
    def key(self, ker, items):
        return frozenset(ker) if len(self.g["entries"]) > 1 and any(p > self.np for p, d in ker) else full(ker)


@mutant
class first_of_entries_only(Gen):
    """productions of a public non-terminal that begins one of its own contribute nothing"""
    def visit(self, k, rhs):
        if k in self.g["entries"] and rhs and rhs[0] > self.nT and rhs[0] - self.nT in self.g["entries"]:
            return False
        return Gen.visit(self, k, rhs)


@mutant
class visits_stop_at_known(Gen):
    """a production is not looked at again once it has added something"""
    def first(self):
        self.done = set()
        Gen.first(self)

    def sweep(self):
        ch = False
        for c, (k, rhs) in enumerate(self.first_prods()):
            if c in self.done:
                continue
            if self.visit(k, rhs):
                ch = True
                if not rhs or rhs[0] <= self.nT or self.F[rhs[0] - self.nT]:
                    self.done.add(c)
        return ch


@mutant
class empty_found_too_late(Gen):
    """FIRST sets first, emptiness after them"""
    def first(self):
        h = Gen(self.g)
        self.N = [False] * (self.nN + 1)
        self.F = [set() for _ in range(self.nN + 1)]
        ch = True
        while ch:
            ch = False
            for p in self.g["prods"]:
                for x in p["rhs"][:1]:
                    ch |= self.addF(p["lhs"], {x} if x <= self.nT else self.F[x - self.nT])
        self.N = list(h.N)
        for p in self.g["prods"]:
            for x in p["rhs"]:
                if x <= self.nT:
                    self.F[p["lhs"]].add(x)
                    break
                self.F[p["lhs"]] |= self.F[x - self.nT]
                if not self.N[x - self.nT]:
                    break
