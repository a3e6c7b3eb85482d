"""The checks, one function per property."""
import os
import sys
import random
import traceback

import build
import corpus
import exhaust
import gram
import longrun
import model
from build import ToolError
from pipeline import Pipeline, gjson


def scale(p, quick, thorough):
    return thorough if p.tier == "thorough" else quick


# ---------------------------------------------------------------------------------------------
# C01 - C07, C13 (bulk): behaviour of single parses

WEIGHTS = {          # share of: item cover, random inputs
    "C01": dict(neg=False, lexerr=False),
    "C03": dict(neg=False, lexerr=False),
}
ANY = ("C01", "C02", "C07", "C13")          # not only grammars with productive non-terminals
LONG = (140000, 600000)                     # tokens of the longest inputs
SIZES = [300, 2000, 5000, 20000]
CONFLICTS = ("C02", "C07", "C13")           # accepted grammars with conflicts too


def trace(e, x, rec, cyc=0, spec=1):
    return {"e": e, "in": list(x) if spec else [], "cyc": cyc, "spec": spec, "ev": rec["ev"] if spec else [],
            "ret": rec["ret"]}


def build_all(p, tag="m", **kw):
    p.build()
    big = [g for g in p.grammars if g.get("big")]
    small = [g for g in p.grammars if not g.get("big")]
    with build.pool(4) as pool:
        fs = [pool.submit(p.cover, small)]
        if big:
            fs.append(pool.submit(p.cover, big))
            fs.append(pool.submit(p.compile, big, tag + "b", 1, **kw))
        fs.append(pool.submit(p.compile, small, tag, **kw))
        for f in fs:
            f.result()


def parse_check(prop, p):
    r = p.rng("corpus")
    gs = corpus.classics(r)
    gs += corpus.random_free(r, scale(p, 120, 900))
    gs += corpus.random_free(r, scale(p, 40, 300), min_states=20)
    if prop in ANY:
        gs += corpus.random_free(r, scale(p, 15, 80), productive=False)
    if prop in CONFLICTS:
        gs += corpus.classics(r, corpus.SR)
        gs += corpus.random_free(r, scale(p, 30, 200), allow={"SR"}, want={"SR"})
    gs += corpus.random_free(r, scale(p, 15, 100), entries=3)
    gs += corpus.first_chains(r, scale(p, 30, 200))
    gs += corpus.shapes(r, scale(p, 40 if prop in ("C01", "C03", "C04") else 10, 200))
    gs += corpus.lr1_not_lalr(r, scale(p, 15, 100))
    gs += corpus.selected(r)
    if prop in ("C03", "C06"):
        gs += corpus.languages(r, scale(p, 1, 3))
    if prop == "C03":
        gs += corpus.alike(r)
    gs += corpus.inflated(r, gs, scale(p, 16, 80))
    gs += corpus.bigs(r, scale(p, 1, 3))
    gs += corpus.pumped(r, scale(p, *LONG))
    p.add(gs)
    build_all(p)
    jobs = []
    ndeep = 0
    for g in p.grammars:
        if g["id"] not in p.accepted or "RR" in g["cls"]["conf"]:
            continue
        if not g["cls"]["productive"] and prop not in ANY:
            continue
        if g["cls"]["conf"] and prop not in CONFLICTS:
            continue
        rr = p.rng("in%d" % g["id"])
        w = WEIGHTS.get(prop, {})
        lex = w.get("lexerr", True)
        if g.get("big"):
            ins = corpus.random_inputs(g, rr, scale(p, 30, 60), maxlen=40, lexerr=lex)
            ins += corpus.deep_inputs(g, rr, 5, 400)
            ins += corpus.wide_inputs(g, rr, scale(p, 40, 150))[:scale(p, 200, 900)]
        else:
            ins = corpus.inputs_from_cover(g, g["cells"], g["cls"], rr, scale(p, 80, 250), **w)
            ins += corpus.random_inputs(g, rr, scale(p, 40, 150), lexerr=lex)
            if ndeep < scale(p, 12, 60) and not g["cls"]["conf"] and rr.random() < 0.3:
                ndeep += 1
                ins += corpus.deep_inputs(g, rr, 2, 600)
        for e, x in corpus.dedupe(ins):
            jobs.append((g, e, x))
    run_and_validate(p, jobs)
    longrun.check(p, p.grammars, scale(p, 60, 400), SIZES, WEIGHTS.get(prop, {}).get("lexerr", True))
    keep = (lambda c: "RR" not in c) if prop in CONFLICTS else (lambda c: not c)
    exhaust.check(p, keep, scale(p, 4, 5), WEIGHTS.get(prop, {}).get("lexerr", True))


def run_and_validate(p, jobs, verdicts=(), prop=None):
    recs = p.run(jobs)
    traces = {}
    for (g, e, x), rec in zip(jobs, recs):
        traces.setdefault(g["id"], []).append(trace(e, x, rec))
    p.samples += [{"grammar": g["prods"][:40], "entry": e, "in": x[:60], "observed": {"ev": rec["ev"][:80], "ret": rec["ret"]}}
                  for (g, e, x), rec in list(zip(jobs, recs))[::max(1, len(jobs) // 5)][:5]]
    p.validate(traces, list(verdicts), prop=prop)


CHECKS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    CHECKS[_p] = (lambda q: (lambda p: parse_check(q, p)))(_p)


# ---------------------------------------------------------------------------------------------
# C08: well-formed LR(1) grammars are accepted and compile

def check_c08(p):
    import features
    r = p.rng("corpus")
    gs = corpus.classics(r)
    gs += corpus.random_free(r, scale(p, 200, 1500))
    gs += corpus.random_free(r, scale(p, 60, 400), min_states=20)
    gs += corpus.random_free(r, scale(p, 30, 200), entries=4)
    gs += corpus.lr1_not_lalr(r, scale(p, 30, 200))
    gs += corpus.first_chains(r, scale(p, 50, 300))
    gs += corpus.shapes(r, scale(p, 30, 200))
    gs += corpus.selected(r)
    gs += corpus.languages(r, scale(p, 2, 6))
    gs += corpus.alike(r)
    gs += corpus.inflated(r, gs, scale(p, 30, 150))
    gs += corpus.bigs(r, scale(p, 1, 3))
    gs += features.pairs(r)
    gs += features.modules(r, scale(p, 150, 900))
    for g in gs:
        g["cover"] = 0
    p.add(gs)
    build_all(p, emit="metadata")
    p.samples = [{"source": g.get("text", "")[:1500], "accepted": g["id"] in p.accepted}
                 for g in p.grammars[::max(1, len(p.grammars) // 5)]]
    p.validate({}, [g["id"] for g in p.grammars])
    exhaust.check(p, lambda c: not c, 0, runs=False, verdicts=True)


# ---------------------------------------------------------------------------------------------
# C09: conflicts

def check_c09(p):
    r = p.rng("corpus")
    gs = corpus.classics(r, corpus.RR) + corpus.classics(r, corpus.SR) + corpus.classics(r)
    gs += corpus.selected_conflicts(r)
    gs += corpus.random_conflict(r, scale(p, 250, 2000), "RR")
    gs += corpus.random_free(r, scale(p, 150, 900), allow={"SR"}, want={"SR"})
    gs += corpus.random_free(r, scale(p, 40, 300), allow={"SR"}, want={"SR"}, min_states=16)
    gs += corpus.random_free(r, scale(p, 30, 300), allow={"SR"}, want={"SR"}, entries=3)
    gs += corpus.inflated(r, gs, scale(p, 80, 400))
    gs += corpus.pumped(r, scale(p, *LONG))
    p.add(gs)
    build_all(p)
    jobs = []
    for g in p.grammars:
        if g["id"] not in p.accepted or g["cls"]["conf"] != {"SR"} or not g["cls"]["productive"]:
            continue
        rr = p.rng("in%d" % g["id"])
        ins = corpus.inputs_from_cover(g, g["cells"], g["cls"], rr, scale(p, 60, 200), lexerr=False)
        ins += corpus.random_inputs(g, rr, scale(p, 60, 200), lexerr=False)
        jobs += [(g, e, x) for e, x in corpus.dedupe(ins)]
    p.notes["grammars_with_reduce_conflicts"] = sum(1 for g in p.grammars if "RR" in g["cls"]["conf"])
    p.notes["accepted_grammars_with_shift_reduce_conflicts"] = len({g["id"] for g, _, _ in jobs})
    run_and_validate(p, jobs, [g["id"] for g in p.grammars])
    longrun.check(p, p.grammars, scale(p, 60, 400), SIZES, False)
    exhaust.check(p, lambda c: c, scale(p, 4, 5), lexerr=False, verdicts=True, link=lambda c: "RR" not in c)


# ---------------------------------------------------------------------------------------------
# C11: entry points

def check_c11(p):
    r = p.rng("corpus")
    gs = []
    for _ in range(scale(p, 2, 6)):
        for g in corpus.classics(r):
            k = r.randint(1, g["nN"])
            g["entries"] = r.sample(range(1, g["nN"] + 1), k)
            gs.append(g)
    gs += corpus.random_free(r, scale(p, 150, 900), entries=5)
    gs += corpus.first_chains(r, scale(p, 20, 100))
    gs += corpus.selected(r, scale(p, 0.5, 1))
    gs += corpus.alike(r)
    gs += corpus.inflated(r, gs, scale(p, 16, 80))
    p.add(gs)
    for g in p.grammars:
        st = p.style(g)
        # a parser for a non-terminal that is not public would clash with these
        g["extra"] = "".join("  pub struct %s;\n" % st.nt[k] for k in range(1, g["nN"] + 1) if k not in g["entries"])
    build_all(p)
    jobs = []
    for g in p.grammars:
        if g["id"] not in p.accepted or g["cls"]["conf"]:
            continue
        rr = p.rng("in%d" % g["id"])
        words = {tuple(x) for e, x in corpus.inputs_from_cover(g, g["cells"], g["cls"], rr, scale(p, 50, 150), neg=False)}
        words |= corpus.words_of_all(g, rr, scale(p, 4, 10))
        words = sorted(words)
        rr.shuffle(words)
        for x in words[:scale(p, 60, 150)]:
            for e in range(1, len(g["entries"]) + 1):
                jobs.append((g, e, list(x)))
    run_and_validate(p, jobs, [g["id"] for g in p.grammars])
    longrun.check(p, p.grammars, scale(p, 60, 400), SIZES, False)
    exhaust.check(p, lambda c: not c, scale(p, 4, 5), lexerr=False, entries=2, verdicts=True)


# ---------------------------------------------------------------------------------------------
# C13: termination

def check_c13(p):
    r = p.rng("corpus")
    gs = corpus.classics(r) + corpus.classics(r, corpus.SR)
    gs += corpus.random_free(r, scale(p, 100, 600))
    gs += corpus.random_free(r, scale(p, 80, 500), productive=False)
    gs += corpus.random_free(r, scale(p, 80, 500), allow={"SR"}, want={"SR"})
    gs += corpus.random_free(r, scale(p, 30, 300), entries=4)
    gs += corpus.first_chains(r, scale(p, 20, 100))
    gs += corpus.selected(r, scale(p, 0.5, 1))
    gs += corpus.bigs(r, scale(p, 1, 3))
    pumped = corpus.pumped(r, scale(p, 300000, 2000000))
    gs += pumped
    p.add(gs)
    build_all(p)
    jobs, extra = [], []
    for g in p.grammars:
        if g["id"] not in p.accepted or "RR" in g["cls"]["conf"]:
            continue
        rr = p.rng("in%d" % g["id"])
        if g.get("big"):
            ins = corpus.random_inputs(g, rr, 30, maxlen=40) + corpus.deep_inputs(g, rr, 5, 400)
        else:
            ins = corpus.inputs_from_cover(g, g["cells"], g["cls"], rr, scale(p, 60, 200))
            ins += corpus.random_inputs(g, rr, scale(p, 40, 150))
        jobs += [(g, e, x) for e, x in corpus.dedupe(ins)]
        if not g["cls"]["conf"]:
            for e, x, cyc in corpus.endless(g, rr, scale(p, 6, 20)):
                extra.append((g, e, x, cyc))
    # endless streams that contain a token which cannot continue
    recs = p.run([(g, e, " ".join(map(str, x)) + " @%d" % (cyc - 1)) for g, e, x, cyc in extra])
    traces = {}
    for (g, e, x, cyc), rec in zip(extra, recs):
        traces.setdefault(g["id"], []).append(trace(e, x, rec, cyc=cyc))
    p.notes["endless_streams"] = len(extra)
    # very long inputs
    long = [(g, 1, w) for g in pumped for w in g["words"] if g["id"] in p.accepted]
    recs = p.run(long, fuel=scale(p, 2 * 10 ** 7, 10 ** 8), keep=False)
    for (g, e, w), rec in zip(long, recs):
        traces.setdefault(g["id"], []).append(trace(e, [], rec, spec=0))
    p.notes["very_long_inputs"] = [{"grammar": g["name"], "input": w[:200], "outcome": rec["ret"]["k"], "tokens": rec["np"], "actions": rec["na"]}
                                   for (g, e, w), rec in zip(long, recs)][:40]
    p.validate(traces, [])
    run_and_validate(p, jobs)
    longrun.check(p, [g for g in p.grammars if not g.get("words")], scale(p, 60, 400), SIZES)
    exhaust.check(p, lambda c: "RR" not in c, scale(p, 3, 5))


def check_c12(p):
    import front
    front.check(p, scale)


def check_c10(p):
    import tokens
    tokens.check(p, scale)


def check_c14(p):
    import perm
    perm.check(p, scale)


def check_c15(p):
    import repro
    repro.check(p, scale)


def check_c16(p):
    import sessions
    sessions.check(p, scale)


def check_c17(p):
    import owner
    owner.check(p, scale)


CHECKS.update(C17=check_c17, C16=check_c16, C15=check_c15, C14=check_c14, C10=check_c10, C12=check_c12, C08=check_c08, C09=check_c09, C11=check_c11, C13=check_c13)


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = Pipeline(prop, tier, seed)
    try:
        m = model.Model(p)
        m.start()
        CHECKS[prop](p)
        m.finish()
        p.evidence()
        code = p.report()
    except ToolError as e:
        print("ERROR: %s" % e, flush=True)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        p.sc.close()
    p.log("exit", code)
    return code
