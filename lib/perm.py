"""C14: the same grammar, arranged and named in other ways (spec/Perm.tla)."""
import json
import random
import build
import corpus
import gram
import render
import tlc as T

CFG = "CONSTANTS\n  Mode = \"%s\"\n  Steps = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n"


def chains(r, n):
    """Grammars whose FIRST sets need several rounds, from either end."""
    out = []
    tries = 0
    while len(out) < n and tries < 4000:
        tries += 1
        k = r.randint(3, 7)
        prods = [(1, [-2, 1])] if r.random() < 0.7 else [(1, [-2])]
        for i in range(2, k + 1):
            nxt = -(i + 1) if i < k else None
            alts = []
            if nxt:
                alts.append(r.choice([[nxt], [nxt], [nxt, nxt], [nxt, r.randint(1, 4)], [nxt, -r.randint(2, k)]]))
            else:
                alts.append([])
            if r.random() < 0.6:
                alts.append([r.randint(1, 4)])
            if r.random() < 0.3:
                alts.append([])
            if r.random() < 0.3:
                alts.append([r.randint(1, 4), -r.randint(1, k)])
            for a in alts:
                if (i, a) not in prods:
                    prods.append((i, a))
        g = gram.grammar(prods, [1], nT=4, nN=k)
        Y = gram.yields(g)
        if any(Y[q] is None for q in range(1, k + 1)):
            continue
        try:
            s, c, _ = gram.lr1(g, 120)
        except gram.TooBig:
            continue
        if c or s < 4:
            continue
        if r.random() < 0.4:
            g["entries"] = sorted(r.sample(range(1, k + 1), 2))
            try:
                if gram.lr1(g, 120)[1]:
                    continue
            except gram.TooBig:
                continue
        out.append(corpus.setup(g, r, "chain"))
    return out


def productive(g):
    Y = gram.yields(g)
    return all(Y[k] is not None for k in range(1, g["nN"] + 1))


def outcome(rec):
    x = rec["ret"]["x"]
    return {"k": rec["ret"]["k"], "v": rec["ret"]["v"], "f": rec["ret"]["f"], "np": rec["np"], "x": x.split(", ") if x else []}


def check(p, scale):
    r = p.rng("corpus")
    bases = [g for g in corpus.classics(r) if productive(g)]
    bases += corpus.random_free(r, scale(p, 50, 300))
    bases += corpus.random_free(r, scale(p, 20, 100), entries=4)
    bases += chains(r, scale(p, 50, 300))
    bases += corpus.first_chains(r, scale(p, 40, 250))
    bases += corpus.selected(r)
    for g in bases:
        g["names"] = [x if x else "<>" for x in g["names"]]
        g["name"] = g.get("name") or "random"
    p.add(bases)
    nbase = len(bases)
    p.build()
    p.cover(bases)
    gs = [g for g in bases if not g["cls"]["conf"]]
    rows = []
    for g in gs:
        st = p.style(g)
        rows.append({"nts": [{"id": k, "prods": [i for i, q in enumerate(g["prods"], 1) if q["lhs"] == k]} for k in range(1, g["nN"] + 1)],
                     "terms": list(range(1, g["nT"] + 1)), "tn": g["names"], "nn": [st.nt[k] for k in range(1, g["nN"] + 1)]})
    texts, seen = [], set()

    def edits(steps):
        return T.tlc(p.sc, "perm%d" % steps, "Perm", CFG % ("generate", steps, "Same"),
                     {"bases.ndjson": "".join(json.dumps(x) + "\n" for x in rows), "work.ndjson": ""}, workers=1,
                     simulate=["-simulate", "num=%d" % (len(rows) * scale(p, 3, 10)), "-depth", str(steps + 3), "-seed", str(p.seed + steps)])

    with build.pool(3) as pl:
        done = list(pl.map(edits, (2, 6, 15)))
    for run in done:
        T.check(run, "Perm")
        for x in run.records:
            key = json.dumps(x)
            if key not in seen:
                seen.add(key)
                texts.append(x)
    per = {}
    variants = []
    for x in sorted(texts, key=lambda x: json.dumps(x)):
        per.setdefault(x["b"], []).append(x)
    for b, xs in sorted(per.items()):
        g = gs[b - 1]
        for x in r.sample(xs, min(len(xs), scale(p, 4, 10))):
            v = dict(g, names=x["tn"], variant_of=g["id"])
            for k in ("id", "text", "style"):
                v.pop(k, None)
            st = render.Style(v, p.rng("style%d" % g["id"]))
            st.nt = {k: x["nn"][k - 1] for k in range(1, g["nN"] + 1)}
            st.nt_order = [y["id"] for y in x["nts"]]
            st.t_order = x["terms"]
            rank = {}
            for y in x["nts"]:
                for i, q in enumerate(y["prods"]):
                    rank[q] = i
            st.prod_order = rank
            st.enum_pos = x["pos"]
            v["style"] = st
            variants.append(v)
    p.add(variants)
    p.log("%d grammars, %d other ways to write them" % (len(gs), len(variants)))
    # a grammar and its variants into the same program
    p.compile(gs + variants, "m")
    ins = {}
    jobs = []
    for g in gs:
        rr = p.rng("in%d" % g["id"])
        xs = corpus.inputs_from_cover(g, g["cells"], g["cls"], rr, scale(p, 45, 120))
        xs += corpus.random_inputs(g, rr, scale(p, 20, 60))
        ins[g["id"]] = corpus.dedupe(xs)
    for g in gs + variants:
        if g["id"] in p.accepted:
            jobs += [(g, e, x) for e, x in ins[g.get("variant_of", g["id"])]]
    recs = p.run(jobs)
    got = {}
    for (g, e, x), rec in zip(jobs, recs):
        got.setdefault(g["id"], []).append(outcome(rec))
    work = []
    for v in variants:
        g = p.g(v["variant_of"])
        if p.skipped & {g["id"], v["id"]}:
            continue
        va, vb = ["accepted" if q["id"] in p.accepted else "rejected" for q in (g, v)]
        runs = [{"a": a, "b": b} for a, b in zip(got.get(g["id"], []), got.get(v["id"], []))] if va == vb else []
        work.append({"id": v["id"], "ta": g["names"], "tb": v["names"], "va": va, "vb": vb, "runs": runs})
    run = T.tlc(p.sc, "permj", "Perm", CFG % ("judge", 0, "Judge"),
                {"bases.ndjson": "", "work.ndjson": "".join(json.dumps(w) + "\n" for w in work)})
    T.check(run, "Perm")
    p.count(run)
    if sum(x["n"] for x in run.records if "done" in x) != sum(len(w["runs"]) for w in work):
        raise build.ToolError("TLC did not get through all runs")
    for x in run.records:
        if "why" in x:
            v = p.g(x["id"])
            b = {"g": x["id"], "why": x["why"], "base": p.module(p.g(v["variant_of"]))}
            if x["run"]:
                e, i = ins[v["variant_of"]][x["run"] - 1]
                w = [w for w in work if w["id"] == x["id"]][0]["runs"][x["run"] - 1]
                b["trace"] = {"e": e, "in": i, "base": w["a"], "ret": w["b"]}
            p.bad.append(b)
    n = sum(len(w["runs"]) for w in work)
    p.traces += n
    p.notes["base_grammars"] = len(gs)
    p.notes["variants"] = len(variants)
    p.samples = [{"base": p.module(p.g(v["variant_of"])), "variant": p.module(v)} for v in variants[::max(1, len(variants) // 3)]]
    p.log("compared %d runs of %d variants: %d differences" % (n, len(variants), len(p.bad)))
