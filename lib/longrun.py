"""Very long runs of the real parsers against spec/Long.tla."""
import corpus
import gram
import pipeline
import tlc as T
from build import ToolError

BATCH = 1000


def segments(text):
    """`( 1 2 )*3 4` as [part, n]."""
    out, part, inside = [], [], False
    for w in text.split():
        if w == "(":
            if part:
                out.append({"part": part, "n": 1})
            part, inside = [], True
        elif w.startswith(")*"):
            if int(w[2:]) > 0:
                out.append({"part": part, "n": int(w[2:])})
            part, inside = [], False
        else:
            part.append(int(w))
    if part:
        out.append({"part": part, "n": 1})
    return [s for s in out if s["part"]]


def text(segs):
    return " ".join("( %s )*%d" % (" ".join(map(str, p)), n) for p, n in segs if p and n > 0)


def cycles(g, r, tries=60):
    """(entry, pre, u, core, v, suf): pre u^n core v^n suf is a sentence for every n."""
    nT = g["nT"]
    Y = gram.yields(g)
    by = {}
    for p in g["prods"]:
        if all(x <= nT or Y[x - nT] is not None for x in p["rhs"]):
            by.setdefault(p["lhs"], []).append(p["rhs"])
    flat = lambda xs: [t for x in xs for t in ([x] if x <= nT else
                       gram.derive(g, r, x - nT, r.choice([0, 0, 3]), Y))]

    def walk(k, goal, depth):
        """a random way down from k to goal"""
        pre, suf = [], []
        for _ in range(depth):
            alts = [(a, i) for a in by.get(k, []) for i, x in enumerate(a) if x > nT]
            if not alts:
                return None
            a, i = r.choice(alts)
            pre += flat(a[:i])
            suf = flat(a[i + 1:]) + suf
            k = a[i] - nT
            if k == goal:
                return pre, suf
        return None

    for _ in range(tries):
        e = r.randint(1, len(g["entries"]))
        goal = r.randint(1, g["nN"])
        if Y[goal] is None:
            continue
        down = ([], []) if g["entries"][e - 1] == goal else walk(g["entries"][e - 1], goal, 8)
        loop = walk(goal, goal, 6)
        if not down or not loop or not (loop[0] or loop[1]) or len(loop[0]) + len(loop[1]) > 12:
            continue
        yield e, down[0], loop[0], gram.derive(g, r, goal, 2, Y), loop[1], down[1]


def around(g, r, e, pre, u, core, v, suf, size, lexerr):
    """Inputs of about `size` tokens: the sentence, and what goes wrong late."""
    n = max(2, size // max(1, len(u) + len(v)))
    m = max(1, n - 1)
    bad = r.randint(1, g["nT"])
    sets = [[(pre, 1), (u, n), (core, 1), (v, n), (suf, 1)],
            [(pre, 1), (u, n), (core, 1), (v, m), (suf, 1)],
            [(pre, 1), (u, n), (core, 1), (v, n), (suf + [bad], 1)],
            [(pre, 1), (u, n), (core, 1), (v, n // 2), ([bad], 1), (v, n - n // 2), (suf, 1)],
            [(pre, 1), (u, n), ([bad], 1)]]
    if lexerr:
        sets += [[(pre, 1), (u, n), (core, 1), (v, m), ([-r.randint(1, 99)], 1), (suf, 1)]]
    return [(e, text(s)) for s in sets]


def check(p, gs, n, sizes, lexerr=True, timeout=800):
    """gs: grammars that have been compiled.  Inputs of those with `words`, and of n others."""
    jobs = []
    for g in gs:
        if g["id"] not in p.accepted or "RR" in g["cls"]["conf"] or max(g["tk"]) > 1 or g.get("big"):
            continue
        if g["cls"]["conf"] and p.prop not in ("C09", "C13"):
            continue
        if not g.get("words"):
            if n == 0 or not g["cls"]["productive"]:
                continue
            n -= 1
        r = p.rng("long%d" % g["id"])
        if g.get("words"):
            ins = [(1, w) for w in g["words"] if lexerr or "-" not in w]
        else:
            ins = []
            for c in list(cycles(g, r))[:2]:
                some = around(g, r, *c, r.choice(sizes), lexerr)
                ins += [some[0]] + r.sample(some[1:], 2)
        jobs += [(g, e, w) for e, w in dict.fromkeys(ins)]
    if not jobs:
        return
    recs = p.run(jobs, fuel=10 ** 8, keep=2, hang=30)
    work = []
    per = {}
    for (g, e, w), rec in zip(jobs, recs):
        ret = dict(rec["ret"])
        v = ret["v"].lstrip("h")
        ret["v"] = int(v) if v.isdigit() and ret["k"] in ("ok", "lerr") else 0
        t = {"e": e, "segs": segments(w), "np": rec["np"], "na": rec["na"], "ah": rec.get("ah", 0), "al": rec.get("al", 0), "sum": rec.get("sum", [0, 0]), "ret": ret}
        per.setdefault(g["id"], []).append((w, t))
    for gid in sorted(per):
        ts = per[gid]
        step = 1 if p.g(gid).get("words") else 4
        for i in range(0, len(ts), step):
            work.append((gid, ts[i:i + step]))
    work.sort(key=lambda x: -sum(t["np"] for _, t in x[1]))
    rows = [{"g": pipeline.gjson(p.g(gid)), "tr": [t for _, t in ts]} for gid, ts in work]
    cfg = ("CONSTANTS\n  Prop = \"%s\"\n  Batch = %d\n  Chunk = 256\nSPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n" % (p.prop, BATCH))
    r = T.tlc(p.sc, "long", "Long", cfg, {"work.ndjson": pipeline.nd(rows)}, timeout=timeout)
    T.check(r, "Long")
    p.count(r)
    done = {d["done"]: d for d in r.records if "done" in d}
    if len(done) != len(work):
        raise ToolError("TLC did not get through all long runs: %d of %d" % (len(done), len(work)))
    for d in r.records:
        if "why" in d:
            gid, ts = work[d["wid"] - 1]
            w, t = ts[d["tid"] - 1]
            p.bad.append({"g": gid, "why": d["why"], "spec": d["spec"], "prop": p.prop,
                          "trace": {"in": w, "e": t["e"], "ret": t["ret"], "np": t["np"], "na": t["na"]}})
    p.traces += len(jobs)
    toks = sorted(t["np"] for ts in per.values() for _, t in ts)
    p.notes["long_runs"] = {"runs": len(jobs), "grammars": len(per), "longest": toks[-1], "median": toks[len(toks) // 2],
                            "requests": sum(toks)}
    p.log("long runs: %d, up to %d tokens, %d states, %d disagreements" % (len(jobs), toks[-1], r.states, len(p.bad)))
