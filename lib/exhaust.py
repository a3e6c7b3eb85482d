"""Every small grammar, every short input: the families spec/Enumerate.tla lists, run in the real
generator and its parsers."""
import itertools
import os

import corpus
import gram
import tlc as T

# (terminals, non-terminals, productions, symbols of a right-hand side)
SMALL = [(1, 1, 3, 3), (1, 2, 4, 2), (2, 2, 3, 2)]
MORE = [(2, 1, 3, 3), (1, 3, 4, 2), (2, 2, 4, 2)]


def listed(p, fam, entries=1):
    t, n, np, rhs = fam
    cfg = ("CONSTANTS\n  MaxT = %d\n  MaxN = %d\n  MaxProds = %d\n  MaxRhs = %d\n  Entries = %d\n"
           "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n" % (t, n, np, rhs, entries))
    r = T.tlc(p.sc, "enum", "Enumerate", cfg, timeout=1500)
    T.check(r, "Enumerate")
    p.count(r)
    r.records.sort(key=lambda d: (len(d["prods"]), d["prods"], d["entries"]))
    return r.records


def grammars(p, fam, keep, entries=1):
    """keep(conflict kinds): is the grammar wanted"""
    r = p.rng("exhaust%s" % (fam,))
    out = []
    for d in listed(p, fam, entries):
        if not keep(set(d["conf"])):
            continue
        g = corpus.setup(corpus.plain(d), r, "all %d/%d/%d/%d" % fam)
        g["cls"] = {"conf": set(d["conf"]), "productive": True, "states": d["states"]}
        out.append(g)
    return out


def words(nT, n):
    for k in range(n + 1):
        yield from itertools.product(range(1, nT + 1), repeat=k)


def inputs(g, n, lexerr):
    ws = [list(w) for w in words(g["nT"], n)]
    if lexerr:
        ws += [w + [-7] for w in ws if len(w) < n]
    return [(e, w) for e in range(1, len(g["entries"]) + 1) for w in ws]


def groups(gs, runs, link):
    """(what to compile to, grammars)"""
    ls = [g for g in gs if runs and (link is None or link(g["cls"]["conf"]))]
    ids = {g["id"] for g in ls}
    return [("link", ls), ("metadata", [g for g in gs if g["id"] not in ids])]


def check(p, keep, length, lexerr=True, entries=1, fams=None, runs=True, verdicts=False, link=None, batch=600):
    """Compiles, runs and validates whole families, a batch at a time."""
    done = []
    for fam in fams or (SMALL + MORE if p.tier == "thorough" else SMALL):
        if entries > 1 and fam[1] < 2:
            continue
        gs = grammars(p, fam, keep, entries)
        p.log("exhaustive %s: %d grammars" % (fam, len(gs)))
        n = 0
        for i in range(0, len(gs), batch):
            part = gs[i:i + batch]
            p.add(part)
            for emit, some in groups(part, runs, link):
                p.compile(some, "x%d%s_" % (part[0]["id"], emit[0]), 24, emit=emit)
            jobs = []
            if runs:
                for g in part:
                    if g["id"] in p.accepted and "RR" not in g["cls"]["conf"] and p.where.get(g["id"]):
                        jobs += [(g, e, w) for e, w in inputs(g, length, lexerr)]
            recs = p.run(jobs) if jobs else []
            traces = {}
            for (g, e, w), rec in zip(jobs, recs):
                traces.setdefault(g["id"], []).append({"e": e, "in": w, "cyc": 0, "spec": 1, "ev": rec["ev"], "ret": rec["ret"]})
            p.validate(traces, [g["id"] for g in part] if verdicts else [], timeout=3000)
            n += len(jobs)
            for b in {p.where.get(g["id"]) for g in part}:
                if b and os.path.exists(b):
                    os.unlink(b)
            for g in part:
                if not any(b.get("g") == g["id"] for b in p.bad):
                    g.pop("text", None)
        done.append({"terminals": fam[0], "non_terminals": fam[1], "max_productions": fam[2], "max_symbols": fam[3],
                     "grammars": len(gs), "entries": entries, "inputs_up_to": length if runs else None, "traces": n})
    p.notes.setdefault("exhaustive_families", []).extend(done)
