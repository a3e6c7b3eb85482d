"""C16: several parses in one process (spec/Sessions.tla)."""
import json
import os
import subprocess
import build
import corpus
import tlc as T

CFG = "CONSTANT Mode = \"%s\"\nSPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def run_sessions(binary, lines, budget=120):
    """One record per line; a session that hangs is recorded as stuck, and ends the work on this program."""
    e = build.env()
    e["RT_HANG_SECS"] = "45"
    try:
        q = subprocess.run([binary], input="\n".join(lines) + "\n", env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=budget + len(lines) * 0.2)
        out = q.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        out = out.decode() if isinstance(out, bytes) else out
    recs = []
    for l in out.split("\n"):
        try:
            recs.append(json.loads(l))
        except ValueError:
            pass
    if len(recs) < len(lines) and not (recs and recs[-1].get("stuck")):
        recs.append({"log": [], "rets": [], "stuck": True})
    return recs


def nd(xs):
    return "".join(json.dumps(x) + "\n" for x in xs)


def check(p, scale):
    r = p.rng("corpus")
    gs = r.sample(corpus.classics(r), 30)
    gs += corpus.random_free(r, scale(p, 30, 200))
    gs += corpus.random_free(r, scale(p, 20, 150), entries=4)
    p.add(gs)
    build_per = 10
    p.build()
    p.cover(gs)
    p.compile(gs, "m", per=build_per)
    ok = [g for g in gs if g["id"] in p.accepted and not g["cls"]["conf"]]
    pool = {}
    for g in ok:
        rr = p.rng("in%d" % g["id"])
        xs = corpus.inputs_from_cover(g, g["cells"], g["cls"], rr, 25)
        xs += corpus.random_inputs(g, rr, 12)
        pool[g["id"]] = [(e, x) for e, x in corpus.dedupe(xs) if len(x) <= 12]
    ok = [g for g in ok if len(pool[g["id"]]) >= 4]
    by = {}
    for g in ok:
        by.setdefault(p.where[g["id"]], []).append(g)

    # what each parse does when it is alone
    solo = {}

    def alone(key):
        gid, e, x, fuel = key
        q = subprocess.run([p.where[gid]], input="%d %d %d 1 %s\n" % (gid, e, fuel, " ".join(map(str, x))), env=build.env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        try:
            rec = json.loads(q.stdout.split("\n")[0])
        except ValueError:
            rec = {"ev": [], "ret": {"k": "crash", "v": "", "f": "", "x": ""}}
        if rec["ret"]["k"] == "fuel":
            rec["ev"] = rec["ev"][:-1]          # the event that panics is not part of the log
        return key, rec

    keys = []
    for g in ok:
        for e, x in pool[g["id"]]:
            keys.append((g["id"], e, tuple(x), 20000))
            if r.random() < 0.25 and x:
                keys.append((g["id"], e, tuple(x), r.randint(0, len(x))))
    with build.pool() as pl:
        solo = dict(pl.map(alone, keys))
    p.log("%d parses run alone, each in a process of its own" % len(solo))
    kbin = {}
    for k in keys:
        kbin.setdefault(p.where[k[0]], []).append(k)
    bins = sorted(b for b in kbin if len({k[0] for k in kbin[b]}) >= 2)

    def pick(b, want=None, small=None):
        ks = kbin[b]
        if want:
            ks = [k for k in ks if k[0] == want] or ks
        if small:
            ks = [k for k in ks if len(solo[k]["ev"]) <= small] or ks
        return r.choice(ks)

    def job(k, par=0, at=0, aft=0):
        return {"g": k[0], "e": k[1], "in": list(k[2]), "fuel": k[3], "par": par, "at": at, "aft": aft,
                "solo": solo[k]["ev"], "ret": solo[k]["ret"]}

    def shape(b, n, same, small=None, kind=None):
        want = r.choice(kbin[b])[0] if same else None
        js = []
        for i in range(1, n + 1):
            k = pick(b, want, small)
            x = r.random() if kind is None else kind
            if i > 1 and x < 0.35:
                # nested into an event of an earlier parse
                c = [q for q in range(1, i) if js[q - 1]["solo"]]
                if c:
                    q = r.choice(c)
                    js.append(job(k, q, r.randint(1, len(js[q - 1]["solo"]))))
                    continue
            if i > 1 and x < 0.6:
                free = [q for q in range(1, i) if not any(j["aft"] == q for j in js) and not js[q - 1]["par"]]
                if free:
                    js.append(job(k, aft=r.choice(free)))
                    continue
            js.append(job(k))
        return js

    small, large = [], []
    for i in range(scale(p, 14, 40)):
        b = r.choice(bins)
        small.append((b, shape(b, 2, i % 3 != 2, 4, kind=[0.9, 0.9, 0.1][i % 3])))
    for i in range(scale(p, 3, 10)):
        b = r.choice(bins)
        small.append((b, shape(b, 3, i % 2 == 0, 3)))
    for i in range(scale(p, 500, 4000)):
        b = r.choice(bins)
        large.append((b, shape(b, r.choice([2, 2, 3, 3, 4, 5, 6]), r.random() < 0.6)))
    # each parser within each event of itself
    for b in bins:
        for g in by[b]:
            for k in [k for k in kbin[b] if k[0] == g["id"] and k[3] == 20000][:scale(p, 2, 6)]:
                for at in range(1, len(solo[k]["ev"]) + 1):
                    large.append((b, [job(k), job(pick(b, g["id"]), 1, at)]))
    # long chains in one thread
    chains = []
    for b in bins:
        js = []
        for i in range(1, scale(p, 400, 1500)):
            js.append(job(pick(b, small=8), aft=i - 1))
        chains.append((b, js))
    sched = [(b, js, []) for b, js in chains]
    # threads that run as they like: the first uses of a parser at the same time (a process for
    # each such session), and many parses in each of several threads
    first, busy = [], []
    for i in range(scale(p, 240, 2000)):
        b = r.choice(bins)
        first.append((b, [job(pick(b, w, 30)) for w in [r.choice(kbin[b])[0] if i % 4 else None] for _ in range(r.choice([2, 4, 8]))]))
    for b in bins:
        for same in (0, 1):
            want = r.choice(kbin[b])[0] if same else None
            js = [job(pick(b, want)) for _ in range(8)]
            for i in range(9, 9 + scale(p, 400, 3000)):
                js.append(job(pick(b, want, 12), aft=i - 8))
            busy.append((b, js))
    solitary = range(len(sched), len(sched) + len(first))
    free = range(len(sched), len(sched) + len(first) + len(busy))
    sched += [(b, js, []) for b, js in first + busy]
    for name, ss, sim in (("small", small, None), ("large", large, True)):
        work = [{"jobs": js} for _, js in ss]
        args = {}
        if sim:
            args = dict(workers=1, simulate=["-simulate", "num=%d" % (len(ss) * 2), "-depth", "400", "-seed", str(p.seed)])
        run = T.tlc(p.sc, name, "Sessions", CFG % "generate", {"work.ndjson": nd(work)}, **args)
        T.check(run, "Sessions")
        p.count(run)
        xs = {json.dumps([x["s"], x["sched"]]): x for x in run.records}
        got = [x for _, x in sorted(xs.items())]
        cap = scale(p, 1500, 20000)
        if len(got) > cap:
            got = r.sample(got, cap)
        p.notes["interleavings_" + name] = len(got)
        sched += [(ss[x["s"] - 1][0], ss[x["s"] - 1][1], x["sched"]) for x in got]
    p.log("%d sessions" % len(sched))
    lines = {}
    for n, (b, js, sc) in enumerate(sched):
        t = ("free " if n in free else "session ") + " ; ".join("%d %d %d %d %d %d %s" % (j["g"], j["e"], j["par"], j["at"], j["aft"], j["fuel"], " ".join(map(str, j["in"])))
                                    for j in js) + " | " + " ".join(map(str, sc))
        lines.setdefault((b, n if n in solitary else 0), []).append((n, t))
    out = {}
    with build.pool() as pl:
        for b, recs in pl.map(lambda it: (it[0], run_sessions(it[0][0], [t for _, t in it[1]])), sorted(lines.items())):
            for (n, _), rec in zip(lines[b], recs):
                out[n] = rec
    p.log("ran %d of them" % len(out))
    work = []
    for n, rec in sorted(out.items()):
        b, js, sc = sched[n]
        work.append({"n": n, "jobs": [{k: j[k] for k in ("par", "at", "aft", "solo", "ret")} for j in js],
                     "log": rec["log"], "rets": rec["rets"], "stuck": rec["stuck"]})
    run = T.tlc(p.sc, "judge", "Sessions", CFG % "judge", {"work.ndjson": nd(work)})
    T.check(run, "Sessions")
    p.count(run)
    if sum(1 for x in run.records if "done" in x) != len(work):
        raise build.ToolError("TLC did not get through all sessions")
    for x in run.records:
        if "why" in x:
            w = work[x["s"] - 1]
            b, js, sc = sched[w["n"]]
            p.bad.append({"g": js[0]["g"], "why": x["why"],
                          "trace": {"in": [j["in"] for j in js][:20], "jobs": js[:20], "schedule": sc, "log": w["log"][:200], "ret": w["rets"][:20]}})
    p.traces += len(work)
    p.notes["parses_run_alone"] = len(solo)
    p.notes["sessions"] = len(work)
    p.notes["nested_parses"] = sum(1 for _, js, _ in sched for j in js if j["par"])
    p.notes["chains_in_one_thread"] = len(chains)
    p.notes["first_uses_at_the_same_time"] = len(first)
    p.notes["parses_in_threads_running_freely"] = sum(len(js) for _, js in busy)
    p.samples = [{"jobs": [{k: j[k] for k in ("g", "e", "in", "par", "at", "aft")} for j in js[:5]], "schedule": sc, "log": out[n]["log"][:60] if n in out else None}
                 for n, (b, js, sc) in list(enumerate(sched))[::max(1, len(sched) // 5)]]
    p.log("judged: %d states, %d disagreements" % (run.states, len(p.bad)))
