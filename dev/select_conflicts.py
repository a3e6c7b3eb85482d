"""Chooses grammars with conflicts of every make: for every conjunction of up to three features of a conflict, some grammars of
which all conflicts (reduce/reduce) or one (shift/reduce) have them.
usage: python3 dev/select_conflicts.py N OUT    (development only; lib/selected_conflicts.json is what came out)"""
import itertools
import json
import random
import sys
from multiprocessing import Pool
sys.path.insert(0, "/verif/lib")
sys.path.insert(0, "/verif/dev")
import corpus
import gram
import mutants


def cells(g):
    """(rr, sr): features of every conflict"""
    m = mutants.Gen(g)
    m.build()
    nT = m.nT
    rr, sr = [], []
    entry_nts = set(g["entries"])
    for i, items in enumerate(m.items):
        red, sh = {}, {}
        for (p, d), LA in items.items():
            if d == len(m.rhs[p]):
                for t in LA:
                    red.setdefault(t, []).append(p)
            elif m.rhs[p][d] <= nT:
                sh.setdefault(m.rhs[p][d], []).append((p, d))
        for t, ps in red.items():
            ps.sort()
            real = [p for p in ps if p <= m.np]
            if len(ps) > 1:
                f = set()
                f.add("end" if t == 0 else "token")
                f.add("first token" if t == 1 else "later token")
                f.add("last token" if t == nT else "no last token")
                f.add("accept" if len(real) < len(ps) else "no accept")
                ls = {m.lhs[p] for p in real}
                f.add("one nt" if len(ls) == 1 else "several nts")
                lens = [len(m.rhs[p]) for p in real]
                f.add("same length" if len(set(lens)) == 1 else "lengths differ")
                f.add("all empty" if not any(lens) else "no empty" if all(lens) else "some empty")
                f.add("two" if len(ps) == 2 else "more")
                f.add("start state" if i < len(g["entries"]) else "later state")
                f.add("first entry" if i < 1 else "not first state")
                f.add("shift too" if t in sh else "no shift")
                if t in sh and len(real) > 1:
                    s = min(sh[t])[0]
                    key = lambda p: (m.lhs[p], p)
                    if key(s) < key(real[0]):
                        f.add("shift before")
                    elif key(s) > key(real[-1]):
                        f.add("shift after")
                    else:
                        f.add("shift between")
                f.add("other reductions" if len(red) > 1 else "only this")
                if any(m.lhs[p] in entry_nts for p in real):
                    f.add("public")
                else:
                    f.add("private")
                if any(l + 1 in ls for l in ls):
                    f.add("neighbours")
                if len(real) > 1 and m.rhs[real[0]] == m.rhs[real[1]]:
                    f.add("same symbols")
                if len(real) > 1:
                    pos = [m.by[m.lhs[p]].index(p) for p in real]
                    f.add("same position" if len(set(pos)) == 1 else "positions differ")
                    f.add("not first productions" if all(pos) else "first production")
                if any(d for q, d in items if q in real and d == len(m.rhs[q])) :
                    f.add("in kernel")
                else:
                    f.add("in closure")
                f.add("many items" if len(items) > 6 else "few items")
                f.add("unit" if any(len(m.rhs[p]) == 1 and m.rhs[p][0] > nT for p in real) else "no unit")
                rr.append(f)
            elif t in sh:
                p = ps[0]
                s = min(sh[t])
                f = set()
                n = len(m.rhs[p])
                f.add("empty" if n == 0 else "one" if n == 1 else "two" if n == 2 else "long")
                f.add("same nt" if any(m.lhs[q] == m.lhs[p] for q, d in sh[t]) else "other nt")
                f.add("shift first" if (m.lhs[s[0]], s[0]) < (m.lhs[p], p) else "reduce first")
                f.add("one shift" if len(sh[t]) == 1 else "shifts")
                f.add("kernel shift" if any(d for q, d in sh[t]) else "closure shift")
                f.add("start state" if i < len(g["entries"]) else "later state")
                f.add("first token" if t == 1 else "later token")
                f.add("last token" if t == nT else "no last token")
                f.add("end too" if 0 in items[(p, n)] else "no end")
                f.add("other reduction" if len({x for y in red.values() for x in y}) > 1 else "only one")
                f.add("left recursive" if m.rhs[p] and m.rhs[p][0] == nT + m.lhs[p] else "not left recursive")
                f.add("right recursive" if m.rhs[p] and m.rhs[p][-1] == nT + m.lhs[p] else "not right recursive")
                f.add("shift completes" if any(d + 1 == len(m.rhs[q]) for q, d in sh[t]) else "shift goes on")
                f.add("same production" if any(q == p for q, d in sh[t]) else "different")
                f.add("one la" if len(items[(p, n)]) == 1 else "las")
                f.add("all las shifted" if all(x in sh for x in items[(p, n)]) else "some reduced")
                f.add("public" if m.lhs[p] in entry_nts else "private")
                f.add("more symbols" if n > max(d for q, d in sh[t]) else "no more symbols")
                sr.append(f)
    return rr, sr


def one(seed):
    r = random.Random(seed)
    out = []
    for _ in range(600):
        g = gram.random_grammar(r)
        if r.random() < 0.3:
            g["entries"] = r.sample(range(1, g["nN"] + 1), min(g["nN"], r.randint(1, 3)))
        Y = gram.yields(g)
        if any(Y[k] is None for k in range(1, g["nN"] + 1)) or len(gram.reachable(g)) < g["nN"]:
            continue
        try:
            s, c, _ = gram.lr1(g, 70)
        except gram.TooBig:
            continue
        if not c:
            continue
        rr, sr = cells(g)
        if len(rr) > 3 or len(rr) + len(sr) > 8:
            continue
        ks = []
        if rr:
            common = sorted(set.intersection(*rr))
            for n in (1, 2, 3):
                ks += [("RR",) + c for c in itertools.combinations(common, n)]
        else:
            for f in sr:
                for n in (1, 2):
                    ks += [("SR",) + c for c in itertools.combinations(sorted(f), n)]
        out.append((s, len(g["prods"]), {k: g[k] for k in ("nT", "nN", "entries")} | {"prods": [[p["lhs"], p["rhs"]] for p in g["prods"]]}, sorted(set(ks))))
    return out


def main():
    n, dest = int(sys.argv[1]), sys.argv[2]
    with Pool(4) as pool:
        rows = [r for part in pool.imap_unordered(one, range(n // 600)) for r in part]
    uniq = {}
    for r in rows:
        uniq.setdefault(json.dumps(r[2], sort_keys=True), r)
    rows = [uniq[k] for k in sorted(uniq)]
    count = {}
    for row in rows:
        for k in row[3]:
            count[k] = count.get(k, 0) + 1
    out = []
    for kind, want in (("RR", 2), ("SR", 3)):
        need = {k: want for k in count if k[0] == kind}
        chosen = []
        import heapq
        value = lambda i: sum(1 for k in rows[i][3] if need.get(k, 0) > 0) / (8.0 + rows[i][0] ** 0.5 + rows[i][1])
        heap = [(-value(i), i) for i in range(len(rows)) if rows[i][3] and rows[i][3][0][0] == kind]
        heapq.heapify(heap)
        while heap:
            v, i = heapq.heappop(heap)
            w = value(i)
            if w == 0:
                continue
            if heap and -w > heap[0][0] + 1e-12:
                heapq.heappush(heap, (-w, i))
                continue
            chosen.append(i)
            for k in rows[i][3]:
                if k in need:
                    need[k] -= 1
        print(kind, len(need), "conjunctions,", sum(1 for r in rows if r[3][0][0] == kind), "grammars,", len(chosen), "chosen")
        out += [dict(rows[i][2], kind=kind) for i in chosen]
    with open(dest, "w") as f:
        f.write("[" + ",\n".join(json.dumps(x) for x in out) + "]\n")


if __name__ == "__main__":
    main()
