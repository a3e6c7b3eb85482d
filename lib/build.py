"""Builds the macro crate from /repo's working tree and compiles generated modules against it."""
import fcntl
import glob
import hashlib
import json
import zlib
import os
import shutil
import resource
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e.pop("RUSTFLAGS", None)
    e["RUST_BACKTRACE"] = "0"
    return e


class Libs:
    pass


def build_macro(dest):
    """cargo build of the harness crate: the proc macro, as in debug and as in release builds of its users, and the run-time
    library, copied to `dest`."""
    with pool(2) as p:
        debug, release = p.map(lambda a: cargo(dest, *a), [("debug", ["rt", "parsegen"], []), ("release", ["parsegen"], ["--release", "-p", "parsegen"])])
    libs = Libs()
    libs.rt, libs.parsegen, libs.release = debug["rt"], debug["parsegen"], release["parsegen"]
    return libs


def cargo(dest, profile, wanted, args):
    """cargo judges freshness by modification times; without the fingerprints of the crate itself it compiles what is in /repo now."""
    target = os.path.join(BUILD, "target-" + profile)
    os.makedirs(target, exist_ok=True)
    e = env()
    e["CARGO_TARGET_DIR"] = target
    libs = {}
    os.makedirs(os.path.join(dest, profile))
    with open(os.path.join(BUILD, "lock-" + profile), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for f in glob.glob(os.path.join(target, "*", ".fingerprint", "parsegen-*")) + glob.glob(os.path.join(target, "*", ".fingerprint", "harness-*")):
            shutil.rmtree(f)
        p = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--message-format=json"] + args,
            cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise ToolError("cargo build failed:\n" + p.stderr[-4000:] + p.stdout[-2000:])
        for line in p.stdout.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("reason") == "compiler-artifact":
                name = d["target"]["name"]
                for want, end in (("parsegen", ".so"), ("rt", ".rlib")):
                    if name == want:
                        f = [f for f in d["filenames"] if f.endswith(end)][0]
                        libs[name] = os.path.join(dest, profile, "lib" + name + end)
                        shutil.copy(f, libs[name])
    if set(wanted) - set(libs):
        raise ToolError("cargo build produced no libraries")
    return libs


class Scratch:
    """A scratch directory below .build, removed at the end."""

    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=BUILD)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def limit(gb):
    """A changed tree may make the macro or a parser run away."""
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2 ** 30), resource.RLIM_INFINITY))
    return f


RUNAWAY = {"left": 16}         # compilations that may run into the time limit in one check


def rustc(libs, src, out, emit="link", extra=(), timeout=600, edition="2021", macro=None):
    """Returns (ok, diagnostics)."""
    cmd = ["rustc", "--edition=" + edition, "--crate-type=bin" if emit == "link" else "--crate-type=lib",
           "--extern", "parsegen=" + (macro or libs.parsegen), "--extern", "rt=" + libs.rt,
           "-C", "debuginfo=0", "-C", "opt-level=0", "-A", "warnings",
           "--error-format=json", "-o", out, src]
    if emit == "metadata":
        cmd += ["--emit=metadata"]
    cmd += list(extra)
    try:
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           preexec_fn=limit(6))
    except subprocess.TimeoutExpired:
        RUNAWAY["left"] -= 1
        return False, [], "timeout"
    diags = []
    raw = p.stderr.decode("utf-8", "replace")
    for line in raw.splitlines():
        try:
            diags.append(json.loads(line))
        except ValueError:
            pass
    return p.returncode == 0, diags, raw if p.returncode not in (0, 1) or not diags else ""


def spans_lines(d):
    """Line numbers in the main file a diagnostic points at, outermost expansion."""
    lines = []

    def walk(sp):
        while sp.get("expansion") and sp["expansion"].get("span"):
            sp = sp["expansion"]["span"]
        lines.append(sp["line_start"])

    for sp in d.get("spans", []):
        walk(sp)
    for c in d.get("children", []):
        for sp in c.get("spans", []):
            walk(sp)
    return lines


HEAD = "#![allow(warnings)]\n"


SKIPPED = "skipped"


def compile_modules(libs, sc, name, mods, emit="link", main=None, timeout=90, how=None):
    """mods: list of (key, module text).  main: function from the remaining keys to the text of
    `main` (emit = link).  Compiles; modules in which errors are reported are taken out and the rest
    is compiled again.  Returns (binary path or None, accepted keys, {rejected key: message})."""
    rejected = {}
    left = list(mods)
    if how is None:             # how the user's crate is compiled
        h = zlib.crc32(name.encode())
        how = {"edition": {0: "2018", 1: "2024"}.get(h // 4 % 6, "2021"), "macro": libs.release if h % 2 else libs.parsegen,
               "extra": ["-C", "debug-assertions=off", "-C", "overflow-checks=off"] if h // 2 % 2 else []}
    rnd = 0
    while left:
        rnd += 1
        if RUNAWAY["left"] <= 0:
            # enough of them: leave it at that
            rejected.update((k, SKIPPED) for k, _ in left)
            return None, [], rejected
        text = HEAD
        line = text.count("\n") + 1
        ranges = []
        for key, m in left:
            n = m.count("\n")
            ranges.append((line, line + n - 1, key))
            text += m
            line += n
        if main:
            text += main([k for k, _ in left])
        src = sc.path("%s_%d.rs" % (name, rnd))
        out = sc.path("%s_%d.bin" % (name, rnd))
        with open(src, "w") as f:
            f.write(text)
        ok, diags, raw = rustc(libs, src, out, emit=emit, timeout=timeout, **how)
        if ok:
            return out, [k for k, _ in left], rejected
        bad = {}
        orphans = []
        for d in diags:
            if d.get("level") not in ("error", "error: internal compiler error"):
                continue
            ls = spans_lines(d)
            hit = None
            for l in ls:
                for a, b, key in ranges:
                    if a <= l <= b:
                        hit = key
                        break
                if hit is not None:
                    break
            msg = d.get("message", "")
            for c in d.get("children", []):
                if c.get("message"):
                    msg += " | " + c["message"]
            if hit is None:
                orphans.append(msg)
            else:
                bad.setdefault(hit, msg[:500])
        if not bad:
            if len(left) == 1:
                # nothing points anywhere: it is this module
                rejected[left[0][0]] = (raw or " ".join(orphans) or "compiler failed")[:500]
                return None, [], rejected
            # cannot attribute: split
            h = len(left) // 2
            parts = []
            for n, half in (("a", left[:h]), ("b", left[h:])):
                parts.append(compile_modules(libs, sc, "%s%s%d" % (name, n, rnd), half, emit, main, 45 if len(half) > 1 else 60, how))
            rejected.update(parts[0][2])
            rejected.update(parts[1][2])
            if emit == "metadata":
                return None, parts[0][1] + parts[1][1], rejected
            keep = set(parts[0][1] + parts[1][1])
            left = [(k, m) for k, m in left if k in keep]
            if not rejected:
                raise ToolError("rustc fails on %s without saying where: %s" % (src, (raw or str(orphans))[:1000]))
            continue
        rejected.update(bad)
        left = [(k, m) for k, m in left if k not in bad]
    return None, [], rejected


def pool(n=8):
    return ThreadPoolExecutor(max_workers=n)


# ---------------------------------------------------------------------------------------------
# running

def run_binary(binary, lines, timeout=300, hang_secs=20, stack_kb=None):
    """Feeds the lines to the driver; returns one record per line.  Runs that bring the process down
    or hang are recorded as such, and the rest is run in a new process."""
    out = []
    rest = list(lines)
    e = env()
    e["RT_HANG_SECS"] = str(hang_secs)
    while rest:
        try:
            p = subprocess.run([binary], input="\n".join(rest) + "\n", env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=limit(4))
            code = p.returncode
            stdout = p.stdout
        except subprocess.TimeoutExpired as x:
            code = "timeout"
            stdout = (x.stdout or b"")
            stdout = stdout.decode() if isinstance(stdout, bytes) else stdout
        got = []
        for l in stdout.split("\n"):
            try:
                got.append(json.loads(l))
            except ValueError:
                pass
        out += got
        rest = rest[len(got):]
        if code == 0 and not rest:
            break
        if code == 3:                  # watchdog: the hang is recorded
            continue
        if rest:
            out.append({"ev": [], "np": 0, "na": 0,
                        "ret": {"k": "hang" if code == "timeout" else "crash", "v": str(code), "f": "", "x": ""}})
            rest = rest[1:]
    return out
