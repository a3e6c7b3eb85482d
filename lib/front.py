"""C12: texts generated by spec/Front.tla, rendered, given to the macro, judged by spec/Front.tla."""
import json
import build
import tlc as T
from render import rstr


def cfg(mode, defects=1, moves=0, inv="WellFormedStart Emit"):
    return ("CONSTANTS\n  Mode = \"%s\"\n  MaxDefects = %d\n  MaxMoves = %d\nSPECIFICATION Spec\nVIEW View\n"
            "CHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % (mode, defects, moves, inv))


def spell(r, s):
    x = r.random()
    if x < 0.8 or not s:
        return rstr(s)
    if x < 0.9 and '"' not in s:
        return 'r#"%s"#' % s
    return '"' + "".join("\\u{%x}" % ord(c) if r.random() < 0.5 else (c if c not in '"\\' else "\\" + c) for c in s) + '"'


def render(mod, its, r):
    names = []
    for i in its:
        for t in i["terms"]:
            if t not in names:
                names.append(t)
    k = {t: j + 1 for j, t in enumerate(names)}
    n = len(names) + 2
    text = []
    nenum = 0
    types = r.choice([["()"], ["u8"], ["()", "u8", "String", "Option<u8>"]])
    for i in its:
        ty = r.choice(types)
        if i["k"] == "enum":
            nenum += 1
            same = nenum == 1 or r.random() < 0.5          # a further enum: for the same type or another
            tn = "T" if same else "T2"
            ts = []
            seen = set()
            for t in i["terms"]:
                j = k[t]
                if t in seen and r.random() < 0.6:
                    j = n                     # declared again, with another pattern
                seen.add(t)
                ts.append("%s => %s::K%d" % (spell(r, t), tn, j))
            if nenum == 1 or r.random() < 0.7:
                ts.append('"any other%s" => _' % (nenum if nenum > 1 else ""))
            text.append("enum %s { %s }" % (tn, ", ".join(ts)))
        elif i["k"] == "type":
            text.append("type %s = %s;" % (i["name"], r.choice(["u8", "()", "Vec<u8>"])))
        else:
            ps = []
            for p in i["prods"]:
                syms = []
                for j, s in enumerate(p["syms"]):
                    x = spell(r, s["name"]) if s["t"] == "t" else s["name"]
                    if s["named"]:
                        b = "%sx%d" % (r.choice(["", "", "mut "]), j)
                        x = "<%s:%s%s>" % (b, x, s["rep"]) if r.random() < 0.5 else "<%s:%s>%s" % (b, x, s["rep"])
                    else:
                        x += s["rep"]
                    syms.append(x)
                ps.append("%s %s %s" % (" ".join(syms), "=>?" if p["fallible"] else "=>", "()" if ty == "()" else "Default::default()"))
            vis = "pub " if i["pub"] else ""
            if len(ps) == 1 and r.random() < 0.3:
                text.append("%s%s: %s = %s," % (vis, i["name"], ty, ps[0]))
            else:
                text.append("%s%s: %s = { %s };" % (vis, i["name"], ty, ", ".join(ps)))
    ks = ", ".join("K%d" % j for j in range(1, n + 1))
    return ("mod %s {\n  use parsegen::parser;\n  #[derive(Debug, Clone)] pub enum T { %s }\n"
            "  #[derive(Debug, Clone)] pub enum T2 { %s }\n  parser! {\n    %s\n  }\n}\n"
            % (mod, ks, ks, "\n    ".join(text)))


def check(p, scale):
    p.build()
    r = p.rng("front")
    recs = []
    run = T.tlc(p.sc, "front", "Front", cfg("generate", 1, 0))
    T.check(run, "Front")
    p.count(run)
    recs += run.records
    p.log("%d texts with at most one defect" % len(recs))
    run = T.tlc(p.sc, "frontm", "Front", cfg("generate", 1, 2 if p.tier == "thorough" else 1), timeout=500)
    T.check(run, "Front")
    p.count(run)
    run.records.sort(key=lambda x: json.dumps(x["items"], sort_keys=True))
    recs += r.sample(run.records, min(len(run.records), scale(p, 1500, 12000)))
    run = T.tlc(p.sc, "fronts", "Front", cfg("generate", 3, 2, "EmitSome"), workers=1,
                simulate=["-simulate", "num=%d" % scale(p, 400, 4000), "-depth", "6", "-seed", str(p.seed)])
    T.check(run, "Front")
    multi = sorted(({json.dumps(x["items"], sort_keys=True): x for x in run.records if x["n"] > 1}).items())
    recs += [x for _, x in r.sample(multi, min(len(multi), scale(p, 1200, 12000)))]
    run = T.tlc(p.sc, "frontb", "Front", cfg("big", 1, 0, "WellFormedStart EmitFew"), workers=1,
                simulate=["-simulate", "num=%d" % scale(p, 3, 30), "-depth", "2", "-seed", str(p.seed)])
    T.check(run, "Front")
    big = sorted({json.dumps(x["items"], sort_keys=True): x for x in run.records}.items())
    kinds = {}
    for _, x in r.sample(big, len(big)):
        kinds.setdefault(tuple(x["defects"]), []).append(x)
    big = [x for xs in kinds.values() for x in xs[:scale(p, 30, 200)]]
    recs += big
    p.log("%d big texts" % len(big))
    seen, tests = set(), []
    for x in sorted(recs, key=lambda x: (x["n"], json.dumps(x["items"], sort_keys=True))):
        key = json.dumps(x["items"], sort_keys=True)
        if key not in seen:
            seen.add(key)
            tests.append(x)
    mods = []
    for i, x in enumerate(tests):
        x["id"] = i
        x["text"] = render("g%d" % i, x["items"], r)
        mods.append(("g%d" % i, x["text"]))
    parts = [mods[i::16] for i in range(16)]
    with build.pool() as pool:
        res = list(pool.map(lambda i: build.compile_modules(p.libs, p.sc, "f%d" % i, parts[i], emit="metadata"), range(16)))
    skipped = {k for _, _, bad in res for k, v in bad.items() if v == build.SKIPPED}
    acc = {k for _, ok, _ in res for k in ok}
    rej = {k: v for _, _, bad in res for k, v in bad.items()}
    p.log("%d texts: %d accepted, %d rejected" % (len(tests), len(acc), len(rej)))
    work = [{"id": x["id"], "items": x["items"], "verdict": "accepted" if "g%d" % x["id"] in acc else "rejected"} for x in tests
            if "g%d" % x["id"] not in skipped]
    run = T.tlc(p.sc, "frontj", "Front", cfg("judge", 0, 0, "Judge"),
                {"work.ndjson": "".join(json.dumps(w) + "\n" for w in work)})
    T.check(run, "Front")
    p.count(run)
    bad = [x for x in run.records if "why" in x]
    done = len(run.records)
    if done < len(work):
        raise build.ToolError("TLC judged %d of %d texts: not %s" % (done, len(work), [w for i, w in enumerate(work, 1) if i not in {x.get("done") for x in run.records}][:2]))
    for x in bad:
        p.bad.append({"g": None, "why": "%s: %s" % (x["why"], ", ".join(x["defects"])), "text": tests[x["id"]]["text"]})
    p.traces += len(work)
    kinds = {}
    for x in tests:
        for d in x["defects"]:
            kinds[d] = kinds.get(d, 0) + 1
    p.notes["texts"] = len(tests)
    p.notes["texts_by_defect"] = kinds
    p.notes["well_formed_texts"] = sum(1 for x in tests if not x["defects"])
    p.notes["well_formed_texts_accepted"] = sum(1 for x in tests if not x["defects"] and "g%d" % x["id"] in acc)
    p.notes["well_formed_rejected"] = [{"text": x["text"], "msg": rej["g%d" % x["id"]]} for x in tests if not x["defects"] and "g%d" % x["id"] in rej][:5]
    p.samples = [{"text": x["text"], "defects": x["defects"], "rejected": rej.get("g%d" % x["id"])} for x in tests[::max(1, len(tests) // 5)]]
