"""Pipeline shared by the checks: build, cover, compile, run, validate."""
import json
import os
import random
import time

import build
import corpus
import render
import tlc as T
from build import ToolError

COVER_CFG = open(os.path.join(T.SPEC, "Cover.cfg")).read()


def gjson(g):
    return {k: g[k] for k in ("id", "nT", "nN", "prods", "entries", "names", "tk", "cover")}


def nd(rows):
    return "".join(json.dumps(r) + "\n" for r in rows)


class Pipeline:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.sc = build.Scratch(prop)
        self.states = self.transitions = self.traces = 0
        self.grammars = []
        self.rejected = {}
        self.accepted = set()
        self.skipped = set()
        self.where = {}
        self.bad = []
        self.samples = []
        self.notes = {}
        self.runs_by_outcome = {}

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def rng(self, what):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, what))

    def add(self, gs):
        for g in gs:
            g["id"] = len(self.grammars) + 1
            self.grammars.append(g)

    def g(self, i):
        return self.grammars[i - 1]

    # -- steps -------------------------------------------------------------------------------

    def build(self):
        self.libs = build.build_macro(self.sc.dir)
        self.log("macro built")

    def count(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def cover(self, gs, timeout=600):
        """Runs spec/Cover.tla: class of each grammar, and inputs."""
        r = T.tlc(self.sc, "cover", "Cover", COVER_CFG, {"grammars.ndjson": nd(map(gjson, gs))}, timeout=timeout)
        T.check(r, "Cover")
        self.count(r)
        cells = {}
        for rec in r.records:
            if rec["kind"] == "class":
                rec["conf"] = set(rec["conf"])
                self.g(rec["g"])["cls"] = rec
            else:
                cells.setdefault(rec["g"], []).append(rec)
        # TLC's workers race: put the output in an order that depends on nothing
        for g in gs:
            cs = cells.get(g["id"], [])
            cs.sort(key=lambda c: (c["s"], c["c"], c["e"], len(c["pre"]) + len(c["suf"]), c["pre"], c["suf"]))
            g["cells"] = cs
        self.log("cover: %d grammars, %d cells, %d states" % (len(gs), sum(map(len, cells.values())), r.states))

    def modname(self, g):
        return "g%d" % g["id"]

    @staticmethod
    def main_text(keys):
        return "fn main() { rt::main(&[%s]) }\n" % ", ".join("(%s, %s::run as rt::RunFn)" % (k[1:], k) for k in keys)

    def style(self, g):
        if "style" not in g:
            g["style"] = render.Style(g, self.rng("style%d" % g["id"]), simple_types=g.get("simple_types", False))
        return g["style"]

    def module(self, g):
        if "template" in g and "text" not in g:
            g["text"] = g["template"].replace("@MOD@", self.modname(g))
        if "text" not in g:
            g["text"] = render.module(self.modname(g), g, self.style(g), g.get("extra", ""))
        return g["text"]

    def compile(self, gs, tag, per=12, emit="link", expect_reject=False):
        """Compiles; records acceptance and binaries."""
        if not gs:
            return
        n = max(8 if len(gs) >= 16 else 1, (len(gs) + per - 1) // per)
        parts = [gs[i::n] for i in range(n)]

        def one(i):
            mods = [(self.modname(g), self.module(g)) for g in parts[i]]
            main = self.main_text if emit == "link" else None
            return build.compile_modules(self.libs, self.sc, "%s%d" % (tag, i), mods, emit=emit, main=main)

        with build.pool() as p:
            res = list(p.map(one, range(len(parts))))
        for binary, ok, bad in res:
            for k in ok:
                self.accepted.add(int(k[1:]))
                self.where[int(k[1:])] = binary
            for k, msg in bad.items():
                if msg == build.SKIPPED:
                    self.skipped.add(int(k[1:]))
                    continue
                self.rejected[int(k[1:])] = msg
        self.log("%s: %d grammars compiled, %d rejected" % (tag, sum(len(r[1]) for r in res), sum(len(r[2]) for r in res)))

    def run(self, jobs, fuel=20000, keep=True, hang=20):
        """jobs: list of (grammar, entry, items | words).  Returns a record for each."""
        by = {}
        for n, (g, e, w) in enumerate(jobs):
            by.setdefault(self.where[g["id"]], []).append(n)
        out = [None] * len(jobs)

        def one(item):
            binary, ns = item
            lines = []
            for n in ns:
                g, e, w = jobs[n]
                words = w if isinstance(w, str) else " ".join(map(str, w))
                lines.append("%d %d %d %d %s" % (g["id"], e, fuel, int(keep), words))
            recs = build.run_binary(binary, lines, hang_secs=hang)
            if len(recs) != len(lines):
                raise ToolError("%d records for %d runs" % (len(recs), len(lines)))
            for n, r in zip(ns, recs):
                out[n] = r
        with build.pool() as p:
            list(p.map(one, by.items()))
        for r in out:
            self.runs_by_outcome[r["ret"]["k"]] = self.runs_by_outcome.get(r["ret"]["k"], 0) + 1
        return out

    def validate(self, traces, verdicts, chunk=120, prop=None, timeout=800):
        """traces: {grammar id: [trace]}; verdicts: ids of grammars whose verdict is judged.
        Runs spec/Trace.tla; collects disagreements in self.bad."""
        prop = prop or self.prop
        work = []
        for gid in sorted((set(traces) | set(verdicts)) - self.skipped):
            g = self.g(gid)
            trs = traces.get(gid, [])
            v = "accepted" if gid in self.accepted else "rejected"
            for i in range(0, max(1, len(trs)), chunk):
                work.append({"g": gjson(g), "verdict": v, "tr": trs[i:i + chunk], "base": i})
        # long chains first
        work.sort(key=lambda w: -sum(len(t["ev"]) + len(t["in"]) for t in w["tr"]))
        cfg = ("CONSTANTS\n  Prop = \"%s\"\n  Stop = FALSE\nSPECIFICATION Spec\nVIEW View\n"
               "CHECK_DEADLOCK FALSE\nINVARIANT Shape\n" % prop)
        r = T.tlc(self.sc, "trace" + str(self.traces), "Trace", cfg, {"work.ndjson": nd(work)}, timeout=timeout)
        T.check(r, "Trace")
        self.count(r)
        done = {}
        for rec in r.records:
            if "done" in rec:
                done[rec["done"]] = rec
        if len(done) != len(work) or sum(d["n"] for d in done.values()) != sum(len(w["tr"]) for w in work):
            raise ToolError("TLC did not get through all traces: %d of %d" % (len(done), len(work)))
        for rec in r.records:
            if "why" in rec:
                self.bad.append({"g": rec["g"], "why": rec["why"], "spec": rec["spec"], "prop": prop,
                                 "trace": None if rec["tid"] == 0 else self.find_trace(work, rec)})
        n = sum(len(w["tr"]) for w in work)
        self.traces += n
        self.log("validated %d traces against the specification: %d states, %d disagreements"
                 % (n, r.states, len(self.bad)))

    @staticmethod
    def find_trace(work, rec):
        # chunks of one grammar: tid alone is ambiguous, match by the printed chunk
        for w in work:
            if w["g"]["id"] == rec["g"] and rec.get("base", w["base"]) == w["base"] and rec["tid"] <= len(w["tr"]):
                return w["tr"][rec["tid"] - 1]
        return None

    # -- outcome -----------------------------------------------------------------------------

    def evidence(self, extra=None, assumptions=(), level="model_checking"):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:6],
            "grammars": len(self.grammars),
            "grammars_accepted": len(self.accepted),
            "grammars_rejected": len(self.rejected),
            "observed_outcomes": self.runs_by_outcome,
        }
        cov.update(self.notes)
        cov.update(extra or {})
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
             "coverage": cov, "assumptions": list(assumptions),
             "wall_s": round(time.time() - self.t0, 1), "violations": len(self.bad)}
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(build.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)

    def describe(self, gid):
        g = self.g(gid)
        return {"grammar": gjson(g), "name": g.get("name"), "source": self.module(g),
                "rejected": self.rejected.get(gid)}

    def report(self):
        """Writes a replay file for the first violation and prints the line.  Returns the exit code."""
        if not self.bad:
            return 0
        d = os.path.join(build.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        self.bad.sort(key=lambda b: len(json.dumps(b.get("trace"))) + (len(self.g(b["g"])["prods"]) * 20 if b.get("g") else 0))
        path = os.path.join(d, "%s-seed%d.json" % (self.prop, self.seed))
        shown = []
        for b in self.bad[:5]:
            b = dict(b)
            if b.get("g"):
                b.update(self.describe(b["g"]))
            shown.append(b)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "violations": len(self.bad), "first": shown}, f, indent=1)
        b = shown[0]
        print("  %s" % b["why"])
        if b.get("trace"):
            t = b["trace"]
            print("  input %s of entry %s: %s" % (t.get("in"), t.get("e"), t.get("ret")))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        return 1
