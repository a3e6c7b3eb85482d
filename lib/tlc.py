"""Runs TLC on a module of spec/ in a scratch directory and collects what it printed."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from build import VERIF, ToolError

JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(VERIF, "spec")


class Result:
    pass


def tlc(sc, name, module, cfg, files=(), workers=8, timeout=800, mem="6g", simulate=None):
    """cfg: text of the configuration.  files: {name: text} placed beside the modules.
    Returns printed records, number of states, transitions (states generated), violations."""
    d = tempfile.mkdtemp(prefix="tlc_" + name + "_", dir=sc.dir)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for f, text in dict(files).items():
        with open(os.path.join(d, f), "w") as h:
            h.write(text)
    with open(os.path.join(d, name + ".cfg"), "w") as h:
        h.write(cfg)
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "md"),
           "-config", name + ".cfg"]
    if simulate:
        cmd += simulate
    cmd += [module + ".tla"]
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % mem
    log = os.path.join(d, "log")
    with open(log, "w") as h:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=h, stderr=subprocess.STDOUT, timeout=timeout)
            code = p.returncode
        except subprocess.TimeoutExpired:
            code = "timeout"
    r = Result()
    r.code = code
    r.records = []
    r.states = r.transitions = 0
    r.log = log
    errors = []
    with open(log, errors="replace") as h:
        for line in h:
            if line.startswith('"@@'):
                # a TLA+ string: unescape
                r.records.append(json.loads(json.loads(line.strip())[2:]))
            else:
                m = re.match(r"(\d+) states generated.*?, (\d+) distinct states found", line)
                if m:
                    r.transitions, r.states = int(m.group(1)), int(m.group(2))
                if line.startswith("Error:") or "is violated" in line:
                    errors.append(line.strip())
    r.errors = errors
    r.violated = any("is violated" in e for e in errors)
    return r


def check(r, what):
    if r.code == "timeout":
        raise ToolError("TLC timed out: " + what)
    if r.code != 0:
        tail = open(r.log, errors="replace").read()[-3000:]
        raise ToolError("TLC failed (%s) on %s:\n%s" % (r.code, what, tail))
