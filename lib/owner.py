"""C17: accounts of what becomes of tokens, values and errors (spec/Owner.tla, spec/Accounts.tla)."""
import corpus
import render
import tlc as T
from build import ToolError
from pipeline import gjson, nd

TYPES = ["V", "W", "X", "rt::other::V", "rt::other::W", "Box<V>", "Box<W>", "(V,)", "Option<V>", "Option<W>",
         "Vec<V>", "[V; 1]", "Result<V, u8>", "Option<Box<V>>", "Box<rt::other::V>"]
CFG = "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Accounted\n"


def module(mod, g, r):
    """The grammar with tokens of up to three parts, each of which is bound or not."""
    nT = g["nT"]
    ntypes = r.choice([1, 1, 2, 3])
    ts = [r.choice(TYPES) for _ in range(ntypes)]
    g["types"] = {k: r.choice(ts) for k in range(1, g["nN"] + 1)}
    g["lts"] = []
    st = render.Style(g, r)
    g["parts"] = []
    variants, arms, pats = [], [], {}
    for t in range(1, nT + 1):
        n = r.choice([0, 1, 1, 1, 2, 2, 3])
        bound = [1 if r.random() < 0.65 else 0 for _ in range(n)]
        g["parts"].append(bound)
        tys = [r.choice(["V", "V", "W", "Box<V>", "Option<W>"]) for _ in range(n)]
        mks = ["rt::Mk::mk(rt::part(n, %d))" % (j + 1) for j in range(n)]
        v = "T::K%d" % t
        ps = ["<%s>" % ty if b else "_" for ty, b in zip(tys, bound)]
        shape = r.choice(["tuple", "struct", "nested"]) if n else "unit"
        if shape == "unit":
            variants.append("K%d" % t)
            arms.append(v)
            pats[t] = v
        elif shape == "tuple":
            variants.append("K%d(%s)" % (t, ", ".join(tys)))
            arms.append("%s(%s)" % (v, ", ".join(mks)))
            while len(ps) > 1 and ps[-1] == "_" and ps[-2] == "_":
                ps.pop()
            if ps[-1] == "_" and (len(ps) < n or r.random() < 0.5):
                ps[-1] = ".."
            pats[t] = "%s(%s)" % (v, ", ".join(ps))
        elif shape == "nested":
            variants.append("K%d((%s, u8))" % (t, ", ".join(tys)))
            arms.append("%s((%s, 1))" % (v, ", ".join(mks)))
            pats[t] = "%s((%s, _))" % (v, ", ".join(ps))
        else:
            fs = ["f%d" % j for j in range(n)]
            variants.append("K%d { %s }" % (t, ", ".join("%s: %s" % x for x in zip(fs, tys))))
            arms.append("%s { %s }" % (v, ", ".join("%s: %s" % x for x in zip(fs, mks))))
            some = [x for x in zip(fs, ps) if x[1] != "_" or r.random() < 0.5]
            pats[t] = "%s { %s }" % (v, ", ".join(["%s: %s" % x for x in some] + ([".."] if len(some) < n else [])))
    g["tk"] = [min(2, sum(b)) for b in g["parts"]]
    decl = ("  #[derive(Debug)] pub enum T { %s }\n  pub fn mk(t: u32, n: u64) -> T { match t { %s, _ => unreachable!() } }\n"
            % (", ".join(variants), ", ".join("%d => %s" % (t, arms[t - 1]) for t in range(1, nT + 1))))
    calls = "".join("      %d => rt::conv!(%s::parse(rt::It::new(feed, mk))),\n" % (i, st.nt[e])
                    for i, e in enumerate(g["entries"], 1))
    return ("mod %s {\n  use parsegen::parser;\n  use ::rt::own as rt;\n  use rt::{V, W, X};\n%s  parser! {\n%s  }\n"
            "  pub fn run(e: usize, feed: ::rt::Feed) -> ::rt::Ret {\n    match e {\n%s      _ => unreachable!(),\n    }\n  }\n}\n"
            % (mod, decl, render.parser_text(g, st, pats, r), calls))


def ints(s, sep=","):
    return [int(x) for x in s.split(sep)] if s else []


def entry(e, x, last, rec):
    t = {"e": e, "in": list(x), "last": last, "ev": rec["ev"], "k": rec["ret"]["k"], "used": [], "back": [], "dropped": [], "left": []}
    f = rec["ret"]["v"].split("|")
    if len(f) == 5 and t["k"] in ("ok", "perr", "lerr", "fuel"):
        n = int(f[0])
        t["used"] = [ints(u) for u in f[1].split(";")] if n else []
        t["back"], t["dropped"], t["left"] = ints(f[2]), ints(f[3]), ints(f[4])
    else:
        t["k"] = "crash" if t["k"] in ("ok", "perr", "lerr", "fuel") else t["k"]
    return t


def judge(p, traces, chunk=150):
    work = []
    for gid in sorted(traces):
        g = p.g(gid)
        for i in range(0, len(traces[gid]), chunk):
            work.append({"g": dict(gjson(g), parts=g["parts"]), "tr": traces[gid][i:i + chunk]})
    work.sort(key=lambda w: -sum(len(t["ev"]) for t in w["tr"]))
    run = T.tlc(p.sc, "accounts", "Accounts", CFG, {"work.ndjson": nd(work)})
    T.check(run, "Accounts")
    p.count(run)
    done = [x for x in run.records if "done" in x]
    if len(done) != len(work) or sum(d["n"] for d in done) != sum(len(w["tr"]) for w in work):
        raise ToolError("TLC did not get through all accounts: %d of %d" % (len(done), len(work)))
    for x in run.records:
        if "why" in x:
            t = work[x["wid"] - 1]["tr"][x["tid"] - 1]
            p.bad.append({"g": x["g"], "why": x["why"], "spec": x["spec"], "trace": dict(t, ret=t["k"])})
    n = sum(len(w["tr"]) for w in work)
    p.traces += n
    p.log("accounts of %d parses: %d states, %d disagreements" % (n, run.states, len(p.bad)))


def check(p, scale):
    r = p.rng("corpus")
    gs = corpus.classics(r)
    gs += corpus.random_free(r, scale(p, 100, 700))
    gs += corpus.random_free(r, scale(p, 20, 150), min_states=20)
    gs += corpus.random_free(r, scale(p, 15, 100), entries=3)
    gs += corpus.first_chains(r, scale(p, 10, 60))
    gs += corpus.shapes(r, scale(p, 30, 150))
    gs += corpus.selected(r, scale(p, 0.3, 1))
    p.add(gs)
    p.build()
    for g in gs:
        # names are what this is about
        for q in g["prods"]:
            q["bind"] = [1 if r.random() < 0.6 else 0 for _ in q["rhs"]]
        g["text"] = module(p.modname(g), g, p.rng("module%d" % g["id"]))
    p.cover(gs)
    p.compile(gs, "m")
    jobs = []
    for g in gs:
        if g["id"] not in p.accepted or g["cls"]["conf"]:
            continue
        rr = p.rng("in%d" % g["id"])
        ins = corpus.inputs_from_cover(g, g["cells"], g["cls"], rr, scale(p, 50, 150))
        ins += corpus.random_inputs(g, rr, scale(p, 30, 100))
        ins += corpus.deep_inputs(g, rr, 1, 150) if rr.random() < 0.2 else []
        ins = corpus.dedupe(ins)
        jobs += [(g, e, x, -1) for e, x in ins]
        # a panic in any event
        some = [(e, x) for e, x in ins if 0 < len(x) <= 12]
        rr.shuffle(some)
        for e, x in some[:scale(p, 4, 12)]:
            jobs += [(g, e, x, n) for n in range(0, 3 * len(x) + 4)]
    recs = [None] * len(jobs)
    by = {}
    for i, j in enumerate(jobs):
        by.setdefault(j[3], []).append(i)
    for last, ix in sorted(by.items()):
        out = p.run([jobs[i][:3] for i in ix], fuel=20000 if last < 0 else last)
        for i, rec in zip(ix, out):
            recs[i] = rec
    traces = {}
    for (g, e, x, last), rec in zip(jobs, recs):
        if last >= 0 and rec["ret"]["k"] != "fuel":
            continue            # over before
        traces.setdefault(g["id"], []).append(entry(e, x, last, rec))
    p.notes["parses_ended_by_a_panic"] = sum(1 for ts in traces.values() for t in ts if t["k"] == "fuel")
    p.samples = [{"source": p.g(gid)["text"][:1200], "trace": ts[0]} for gid, ts in sorted(traces.items())[::max(1, len(traces) // 5)]]
    judge(p, traces)
