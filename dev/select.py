"""Chooses, from many random grammars, some that tell the faulty generators of mutants.py from the right one.
usage: python3 dev/select.py N OUT    (development only; lib/selected.json is what came out)"""
import json
import random
import sys
import time
from multiprocessing import Pool
sys.path.insert(0, "/verif/lib")
sys.path.insert(0, "/verif/dev")
import corpus
import gram
import mutants


def candidates(seed, n):
    r = random.Random(seed)
    out = []
    while len(out) < n:
        x = r.random()
        if x < 0.08:
            gs = [null_heavy(r)]
        elif x < 0.12:
            gs = corpus.first_chains(r, 1)
        elif x < 0.2:
            gs = corpus.lr1_not_lalr(r, 1)
        elif x < 0.28:
            gs = corpus.random_free(r, 1, entries=3, max_states=60)
        elif x < 0.45:
            gs = corpus.random_free(r, 1, min_states=20, max_states=90)
        elif x < 0.7:
            g = gram.random_grammar(r, nT=r.choice([3, 4, 5, 6, 7, 8]), nN=r.choice([3, 4, 5, 6, 7]), maxrhs=r.choice([3, 4, 5]), eps=r.choice([0.1, 0.25, 0.4]))
            gs = [g]
        else:
            gs = corpus.random_free(r, 1, max_states=60)
        for g in gs:
            s = usable(g)
            if s:
                out.append((s, g))
    return out


def null_heavy(r):
    """long stretches of things that may be empty"""
    m = r.randint(2, 5)
    prods, nts = [], list(range(3, 3 + m))
    t = m + 1
    seq = [-x for x in r.sample(nts, r.randint(2, m))]
    tail = r.choice([[], [t], [-2]])
    if r.random() < 0.5:
        prods.append((1, ([t + 1] if r.random() < 0.5 else [-2] if r.random() < 0.5 else []) + seq + tail))
    else:
        prods.append((1, r.choice([[], [t + 1], [-2]]) + [-(3 + m)] + tail))
        prods.append((3 + m, seq + r.choice([[], [], [t + 3]])))
        if r.random() < 0.4:
            prods.append((1, [t + 4, -(3 + m), r.choice([t, t + 1])]))
    prods.append((2, [t + 2]))
    if r.random() < 0.2:
        prods.append((2, []))
    for i, x in enumerate(nts):
        prods.append((x, r.choice([[i + 1], [i + 1], [i + 1, -x], [-x, i + 1], [i + 1, -2]])))
        prods.append((x, [] if r.random() < 0.9 else [-r.choice(nts)]))
    prods = [p for i, p in enumerate(prods) if p not in prods[:i]]
    n = max([l for l, _ in prods] + [-x for _, q in prods for x in q if x < 0])
    order = list(range(1, n + 1))
    r.shuffle(order)
    new = dict(zip(range(1, n + 1), order))
    prods = sorted([(new[l], [-new[-y] if y < 0 else y for y in q]) for l, q in prods], key=lambda p: p[0])
    return gram.grammar(prods, [new[1]], nT=t + 4, nN=n)


def edited(g, r):
    """something near g"""
    nT, nN = g["nT"], g["nN"]
    prods = [(p["lhs"], list(p["rhs"])) for p in g["prods"]]
    for _ in range(r.randint(1, 3)):
        x = r.random()
        k, rhs = r.choice(prods)
        sym = lambda: r.randint(1, nT + nN)
        if x < 0.25:
            rhs.insert(r.randint(0, len(rhs)), sym())
        elif x < 0.4 and rhs:
            del rhs[r.randrange(len(rhs))]
        elif x < 0.6 and rhs:
            rhs[r.randrange(len(rhs))] = sym()
        elif x < 0.7:
            prods.append((r.randint(1, nN), []))
        elif x < 0.8:
            prods.append((r.randint(1, nN), [sym() for _ in range(r.randint(1, 3))]))
        elif x < 0.9 and len(prods) > 2:
            prods.remove((k, rhs))
        else:
            nT += 1
            prods = [(l, [y + 1 if y >= nT else y for y in q]) for l, q in prods]
            l, q = r.choice(prods)
            q.insert(r.randint(0, len(q)), nT)
    ps = []
    for p in sorted([(l, [y if y <= nT else nT - y for y in q]) for l, q in prods], key=lambda p: p[0]):
        if p not in ps:
            ps.append(p)
    if {l for l, _ in ps} != set(range(1, nN + 1)) or len(ps) > 25:
        return None
    return gram.grammar(ps, g["entries"], nT=nT, nN=nN)


def evolve(job):
    seed, gs = job
    r = random.Random(seed)
    out = []
    for d in gs:
        g = gram.grammar([(l, [x if x <= d["nT"] else d["nT"] - x for x in q]) for l, q in d["prods"]], d["entries"], nT=d["nT"], nN=d["nN"])
        for _ in range(40):
            h = edited(g, r)
            if h and usable(h):
                out.append((usable(h), h))
    return kills(out)


def usable(g):
    Y = gram.yields(g)
    if any(Y[k] is None for k in range(1, g["nN"] + 1)) or len(gram.reachable(g)) < g["nN"]:
        return 0
    try:
        s, c, _ = gram.lr1(g, 90)
    except gram.TooBig:
        return 0
    return 0 if c else s


def one(seed):
    return kills(candidates(seed, 50))


def kills(gs):
    out = []
    for s, g in gs:
        right = mutants.Gen(g).build()
        ks = []
        for name, c in mutants.M.items():
            try:
                d = mutants.differs(right, c(g).build(), g)
            except (gram.TooBig, IndexError, KeyError):
                d = None
            if d:
                ks.append(name + "/" + ("conflict" if d == "conflict" else "row"))
        out.append((s, len(g["prods"]), {k: g[k] for k in ("nT", "nN", "entries")} | {"prods": [[p["lhs"], p["rhs"]] for p in g["prods"]]}, ks))
    return out


def main():
    n, dest = int(sys.argv[1]), sys.argv[2]
    with Pool(8) as pool:
        rows = [r for part in pool.imap_unordered(one, range(n // 50)) for r in part]
        for rnd in range(3):
            by = {}
            rows.sort(key=lambda r: json.dumps(r[2], sort_keys=True))
            for row in rows:
                for k in row[3]:
                    by.setdefault(k, []).append(row)
            rare = []
            for k, rs in by.items():
                if len(rs) < 250:
                    rare += random.Random(rnd).sample(rs, min(len(rs), 20))
            print("round", rnd, len(rows), "rare:", len(rare), flush=True)
            jobs = [(1000 * rnd + i, [row[2] for row in rare[i::64]]) for i in range(64)]
            rows += [r for part in pool.imap_unordered(evolve, jobs) for r in part]
    rows.sort(key=lambda r: json.dumps(r[2], sort_keys=True))
    seen, uniq = set(), []
    for r in rows:
        k = json.dumps(r[2], sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(r)
    rows = uniq
    count = {}
    for _, _, _, ks in rows:
        for k in ks:
            count[k] = count.get(k, 0) + 1
    want = int(sys.argv[3]) if len(sys.argv) > 3 else 5
    need = {k: want for k in count}
    chosen = []
    left = set(range(len(rows)))
    while any(v > 0 for v in need.values()) and left:
        best = max(left, key=lambda i: (sum(1.0 / count[k] ** 0.5 for k in rows[i][3] if need[k] > 0) / (6 + rows[i][0] ** 0.5 + rows[i][1]), -i))
        if not any(need[k] > 0 for k in rows[best][3]):
            break
        left.discard(best)
        chosen.append(best)
        for k in rows[best][3]:
            need[k] -= 1
    for name in mutants.M:
        print("%-45s row %5d conflict %5d" % (name, count.get(name + "/row", 0), count.get(name + "/conflict", 0)))
    print(len(rows), "grammars,", len(chosen), "chosen, states", sum(rows[i][0] for i in chosen))
    with open(dest, "w") as f:
        f.write("[" + ",\n".join(json.dumps(rows[i][2]) for i in chosen) + "]\n")


if __name__ == "__main__":
    main()
