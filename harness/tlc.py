"""Running TLC and collecting what a specification emits (lines printed as "@<json>")."""
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class SpecError(Exception):
    pass


class Result:
    def __init__(self):
        self.states = self.transitions = self.distinct = 0
        self.emitted = []


def launch(workdir, module, consts, invariants=(), properties=(), workers=4, simulate=None, seed=1, depth=None,
           spec="Spec", constraint=None, name=None, xmx="3g"):
    """Start TLC in the background; returns a handle for collect()."""
    name = name or module
    d = os.path.join(workdir, "tlc-" + name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            dst = os.path.join(d, f)
            if not os.path.exists(dst):
                os.symlink(os.path.join(SPEC, f), dst)
    cfg = ["SPECIFICATION " + spec, "CONSTANTS"] + ["  %s = %s" % kv for kv in consts.items()]
    if not consts:
        cfg.pop()
    if invariants:
        cfg.append("INVARIANTS " + " ".join(invariants))
    if properties:
        cfg.append("PROPERTIES " + " ".join(properties))
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    cfg.append("CHECK_DEADLOCK FALSE")
    with open(os.path.join(d, name + ".cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["java", "-Xss16m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-config", name + ".cfg", "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd.append(module + ".tla")
    out = open(os.path.join(d, "out.txt"), "w")
    p = subprocess.Popen(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT)
    return (p, out, d, module)


def collect(handle, allow_violation=False):
    p, out, d, module = handle
    p.wait()
    out.close()
    r = Result()
    err = []
    ok = False
    with open(os.path.join(d, "out.txt"), errors="replace") as f:
        for line in f:
            if line.startswith('"@'):
                r.emitted.append(json.loads(json.loads(line)[1:]))
                continue
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", line)
            if m:
                r.transitions = int(m.group(1).replace(",", ""))
                r.distinct = r.states = int(m.group(2).replace(",", ""))
            m = re.match(r"The number of states generated: ([\d,]+)", line)
            if m:
                r.transitions = r.states = int(m.group(1).replace(",", ""))
                ok = True
            if "No error has been found" in line:
                ok = True
            if line.startswith("Error:") or "is violated" in line or err:
                err.append(line.rstrip())
    if err:
        ok = False
    if not ok:
        raise SpecError("%s: TLC failed (rc %s)\n%s" % (module, p.returncode, "\n".join(err[:60])))
    return r
