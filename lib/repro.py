"""C15: expansions of the same grammar in several places of several compilations (spec/Repro.tla)."""
import hashlib
import json
import os
import random
import re
import subprocess
import build
import corpus
import features
import tlc as T

CFG = "CONSTANTS\n  Mode = \"%s\"\n  K = 3\n  MaxLen = %d\nSPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n"


PKG = [
    {},
    {"CARGO_PKG_NAME": "one", "CARGO_PKG_VERSION": "0.1.0", "CARGO_MANIFEST_DIR": "/src/one", "CARGO_PRIMARY_PACKAGE": "1",
     "CARGO_CRATE_NAME": "one", "OUT_DIR": "/tmp/out-one", "CARGO": "/usr/bin/cargo", "CARGO_BIN_NAME": "one"},
    {"CARGO_PKG_NAME": "package-two", "CARGO_PKG_VERSION": "2.7.18", "CARGO_MANIFEST_DIR": "/home/u/two", "CARGO_PKG_AUTHORS": "U",
     "CARGO_CRATE_NAME": "package_two", "OUT_DIR": "/tmp/out-two", "CARGO_PKG_DESCRIPTION": "two", "CI": "1", "DOCS_RS": "1"},
]
USER = [
    {},
    {"USER": "u1", "LANG": "de_DE.UTF-8", "TZ": "Asia/Tokyo", "TMPDIR": "/var/tmp", "TERM": "dumb", "RUST_LOG": "trace",
     "RUST_BACKTRACE": "1", "SOURCE_DATE_EPOCH": "0", "DEBUG": "1"},
    {"USER": "somebody", "LC_ALL": "C", "RAYON_NUM_THREADS": "3", "SHELL": "/bin/false", "PWD": "/elsewhere", "X": "y" * 500, "PARSEGEN": "1",
     "PROFILE": "release", "NO_COLOR": "1", "COLUMNS": "20"},
]


# The date of another environment: what the system says, moved.  What measures durations stays as it is.
CLOCK = r"""
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
static long off(void) { const char *s = getenv("FAKE_CLOCK"); return s ? atol(s) : 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += off();
    return r;
}
int gettimeofday(struct timeval *restrict v, void *restrict z) {
    struct timespec t;
    (void) z;
    int r = clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000;
    return r;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
"""
MOVED = [0, -777600000, 123456789]     # 25 years ago, in four years


def clock(sc):
    so = sc.path("clock.so")
    with open(sc.path("clock.c"), "w") as f:
        f.write(CLOCK)
    q = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, sc.path("clock.c")], stderr=subprocess.PIPE)
    if q.returncode:
        raise build.ToolError("clock.c: " + q.stderr.decode()[-500:])
    return so


def expand(libs, src, env, cwd, so):
    e = build.env()
    if env["clock"]:
        e["LD_PRELOAD"] = so
        e["FAKE_CLOCK"] = str(MOVED[env["clock"]])
    cpu = random.choice(sorted(os.sched_getaffinity(0)))       # no part of what is checked
    one = None if env["cpus"] else (lambda: os.sched_setaffinity(0, {cpu}))
    e["RUSTC_BOOTSTRAP"] = "1"
    e.update(PKG[env["pkg"]])
    e.update(USER[env["user"] - 1])
    crate = ["a", "crate_b", "c1"][env["crate"] - 1]
    # with the same `cfg` in effect: it may appear in the expansion of the standard library's macros
    opt = ["-C", "opt-level=3", "-C", "debug-assertions=on", "-C", "debuginfo=2"] if env["opt"] else []
    cmd = ["rustc", "--edition=2021", "--crate-type=lib", "--crate-name", crate, "--extern", "parsegen=" + (libs.parsegen if env["debug"] else libs.release),
           "--extern", "rt=" + libs.rt,
           "-A", "warnings", "-Zunpretty=expanded", src] + opt
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400, preexec_fn=one)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0 or "BEGIN_EXPANSION" not in out:
        raise build.ToolError("no expansion: " + p.stderr.decode("utf-8", "replace")[-1500:])
    res = {}
    for m in re.finditer(r"const BEGIN_EXPANSION: u32 = (\d+);(.*?)const END_EXPANSION: u32 = (\d+);", out, re.S):
        assert m.group(1) == m.group(3)
        res[int(m.group(1))] = m.group(2)
    return res


def wrap(text, slot):
    """Marks what `parser!` expands to.  The grammar's own module gets the same name everywhere."""
    i = text.index("written! {" if "written! {" in text else "parser! {")
    d, j = 0, text.index("{", i)
    # matching brace, with strings and chars skipped
    k = j
    while True:
        c = text[k]
        if c == '"':
            m = re.match(r'"(\\.|[^"\\])*"', text[k:], re.S)
            k += m.end()
            continue
        if c == "r" and text[k:k + 3] == 'r#"':
            k = text.index('"#', k + 3) + 2
            continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])'", text[k:])
            if m:
                k += m.end()
                continue
        if c == "{":
            d += 1
        elif c == "}":
            d -= 1
            if d == 0:
                break
        k += 1
    return ("%sconst BEGIN_EXPANSION: u32 = %d;\n  %s\n  const END_EXPANSION: u32 = %d;%s"
            % (text[:i], slot, text[i:k + 1], slot, text[k + 1:]))


def check(p, scale):
    r = p.rng("corpus")
    gs = corpus.classics(r) + corpus.classics(r, corpus.SR)
    gs += corpus.random_free(r, scale(p, 60, 400))
    gs += corpus.random_free(r, scale(p, 20, 150), min_states=20)
    gs += corpus.random_free(r, scale(p, 20, 150), entries=5)
    gs += features.modules(r, scale(p, 30, 200))
    p.add(gs)
    p.build()
    for g in gs:
        g["mod"] = "g"
    # only grammars that are accepted
    p.compile(gs, "m", emit="metadata")
    ok = [g for g in gs if g["id"] in p.accepted]
    bigs = corpus.bigs(r)[:3]
    p.add(bigs)
    p.compile(bigs, "b", per=1, emit="metadata")
    ok += [g for g in bigs if g["id"] in p.accepted]
    r.shuffle(ok)
    run = T.tlc(p.sc, "repro", "Repro", CFG % ("generate", 3), {"work.ndjson": '{"c":1,"g":1,"h":"x"}\n'})
    T.check(run, "Repro")
    p.count(run)
    seqs = sorted({tuple(x["seq"]) for x in run.records})
    envs = [json.loads(x) for x in sorted({json.dumps(x["env"]) for x in run.records})]
    groups = [ok[i::3] for i in range(3)]
    n = min(map(len, groups))
    plan = [(1, 2, 3), (3, 2, 1), (1, 1, 2), (2, 3, 3, 1)] + r.sample(seqs, scale(p, 6, 40))
    envs = r.sample(envs, len(plan))
    for i, e in enumerate(envs):
        e.update(clock=i % 3, debug=i % 2 == 0)       # each of them, whatever the sample
    so = clock(p.sc)
    texts = {}
    for g in ok:
        t = p.module(g)
        texts[g["id"]] = t.replace("mod %s {" % p.modname(g), "mod g {", 1)

    def one(c):
        seq = plan[c]
        slots, text = [], "#![allow(warnings)]\n" + "".join("// %d\n" % i for i in range(envs[c]["at"] * 7))
        for q in range(n):
            for s in seq:
                # feature modules refer to items two levels up: same nesting everywhere
                g = groups[s - 1][q]
                slots.append(g["id"])
                text += "mod w%d {\n%s}\n" % (len(slots), wrap(texts[g["id"]], len(slots)))
        src = p.sc.path("r%d.rs" % c)
        with open(src, "w") as f:
            f.write(text)
        res = expand(p.libs, src, envs[c], ["/", p.sc.dir, build.VERIF][envs[c]["dir"] - 1], so)
        if len(res) != len(slots):
            raise build.ToolError("%d of %d expansions found" % (len(res), len(slots)))
        return [(c + 1, g, res[i]) for i, g in enumerate(slots, 1)]
    with build.pool() as pool:
        obs = [o for os_ in pool.map(one, range(len(plan))) for o in os_]
    work = [{"c": c, "g": g, "h": hashlib.sha256(t.encode()).hexdigest()} for c, g, t in obs]
    run = T.tlc(p.sc, "reproj", "Repro", CFG % ("judge", 0), {"work.ndjson": "".join(json.dumps(w) + "\n" for w in work)})
    T.check(run, "Repro")
    p.count(run)
    if not any(x.get("done") == len(work) for x in run.records):
        raise build.ToolError("TLC did not get through all expansions")
    first = {}
    for c, g, t in obs:
        first.setdefault(g, (c, t))
    for x in run.records:
        if "why" in x:
            c, g, t = obs[x["i"] - 1]
            a, b = first[g][1].split("\n"), t.split("\n")
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            p.bad.append({"g": g, "why": x["why"], "compilations": [first[g][0], c], "line": k,
                          "first": "\n".join(a[k:k + 5])[:600], "now": "\n".join(b[k:k + 5])[:600]})
    p.traces += len(obs)
    p.notes["expansions"] = len(obs)
    p.notes["grammars_expanded"] = len({g for _, g, _ in obs})
    p.notes["compiler_processes"] = len(plan)
    p.notes["environments"] = envs
    p.notes["histories"] = [list(s) for s in plan]
    p.samples = [{"grammar": p.g(g)["name"] if "name" in p.g(g) else None, "digest": w["h"], "compilation": c}
                 for (c, g, t), w in list(zip(obs, work))[::max(1, len(obs) // 5)]]
    p.log("%d expansions of %d grammars in %d compilations: %d differ" % (len(obs), p.notes["grammars_expanded"], len(plan), len(p.bad)))
