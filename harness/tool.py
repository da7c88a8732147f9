"""Building and running the real tool from /repo's working tree."""
import json
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("DREDD_REPO", "/repo")
CLANG = "/usr/bin/clang-17"
CLANGXX = "/usr/bin/clang++-17"
JOBS = os.cpu_count() or 8


class Unbuildable(Exception):
    pass


def scratch(tag):
    base = os.environ.get("VERIF_SCRATCH", "/var/tmp")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix="dredd-%s-" % tag, dir=base)


def start_build(work):
    """Configure and build dredd out of tree in work/build; returns a process handle"""
    b = os.path.join(work, "build")
    log = open(os.path.join(work, "build.log"), "w")
    sh = ("cmake -S {r} -B {b} -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS='-O0 -g0' "
          "-DCMAKE_C_COMPILER={cc} -DCMAKE_CXX_COMPILER={cxx} -DDREDD_CLANG_LLVM_DIR=/usr/lib/llvm-17 "
          "-DCMAKE_PROJECT_dredd_INCLUDE=/opt/vp/system-deps.cmake -DDREDD_WARNINGS_AS_ERRORS=OFF "
          "&& ninja -C {b} dredd").format(r=REPO, b=b, cc=CLANG, cxx=CLANGXX)
    return (subprocess.Popen(["bash", "-c", sh], stdout=log, stderr=subprocess.STDOUT), log, b)


def finish_build(h):
    p, log, b = h
    p.wait()
    log.close()
    exe = os.path.join(b, "src", "dredd", "dredd")
    if p.returncode != 0 or not os.path.exists(exe):
        with open(log.name) as f:
            raise Unbuildable("dredd does not build:\n" + f.read()[-3000:])
    return exe


class Run:
    def __init__(self, rc, out, info):
        self.rc, self.out, self.info = rc, out, info


def flags_for(path):
    return ["-std=c17"] if path.endswith(".c") else ["-std=c++20"]


def dredd(exe, files, info=None, opt=True, track=False, extra=(), clang=None, cwd=None, timeout=120):
    """Run the tool; info is the path of the mutation-info file to ask for"""
    cmd = [exe] + list(files)
    if not opt:
        cmd.append("--no-mutation-opts")
    if track:
        cmd.append("--only-track-mutant-coverage")
    if info:
        cmd += ["--mutation-info-file", info]
    cmd += list(extra) + ["--"] + (list(clang) if clang is not None else flags_for(files[0]))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd)
        rc, out = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, out = -999, "timeout"
    j = None
    if info and os.path.exists(info):
        try:
            with open(info, "rb") as f:
                j = json.loads(f.read().decode("utf-8", "surrogateescape"))
        except ValueError as e:
            j = None
            out += "\n[mutation info is not JSON: %s]" % e
    return Run(rc, out, j)


# ---- reading the mutation-info file --------------------------------------------------------

KINDS = {"removeStmt": "RemoveStmt", "replaceExpr": "ReplaceExpr",
         "replaceUnaryOperator": "ReplaceUnary", "replaceBinaryOperator": "ReplaceBinary"}
ACTION = {"ReplaceWithTrue": "True", "ReplaceWithFalse": "False", "ReplaceWithZeroInt": "ZeroInt",
          "ReplaceWithOneInt": "OneInt", "ReplaceWithMinusOneInt": "MinusOneInt", "ReplaceWithZeroFloat": "ZeroFloat",
          "ReplaceWithOneFloat": "OneFloat", "ReplaceWithMinusOneFloat": "MinusOneFloat"}


def action(name):
    if name in ACTION:
        return ACTION[name]
    if name.startswith("ReplaceWith"):
        return name[len("ReplaceWith"):]
    return name


def loc(d):
    return (d.get("line", 0), d.get("column", 0))


class JGroup:
    """One group of the mutation-info file"""

    def __init__(self, kind, body):
        self.kind = kind
        self.raw = body
        if kind == "RemoveStmt":
            self.insts = [("Remove", body.get("mutationId", 0))]
        else:
            self.insts = [(action(i["action"]), i.get("mutationId", 0)) for i in body.get("instances", [])]
        if kind in ("RemoveStmt", "ReplaceExpr"):
            self.span = (loc(body["start"]), loc(body["end"]))
            self.parts = [(self.span, body.get("snippet", ""))]
            self.op = None
        elif kind == "ReplaceUnary":
            self.span = (loc(body["exprStart"]), loc(body["exprEnd"]))
            self.parts = [(self.span, body.get("exprSnippet", "")),
                          ((loc(body["operandStart"]), loc(body["operandEnd"])), body.get("operandSnippet", ""))]
            self.op = body.get("operator")
        else:
            self.span = (loc(body["exprStart"]), loc(body["exprEnd"]))
            self.parts = [(self.span, body.get("exprSnippet", "")),
                          ((loc(body["lhsStart"]), loc(body["lhsEnd"])), body.get("lhsSnippet", "")),
                          ((loc(body["rhsStart"]), loc(body["rhsEnd"])), body.get("rhsSnippet", ""))]
            self.op = body.get("operator")


def groups_of_node(node):
    out = []
    for g in node.get("mutationGroups", []):
        (key, body), = g.items()
        out.append(JGroup(KINDS[key], body))
    return out


def file_groups(finfo):
    """all groups of a file, in the order of their ids"""
    gs = [g for n in finfo["mutationTree"] for g in groups_of_node(n)]
    gs.sort(key=lambda g: g.insts[0][1] if g.insts else -1)
    return gs


class Text:
    """line/column arithmetic on a source text (columns count bytes, from 1; ends are exclusive)"""

    def __init__(self, data):
        self.data = data if isinstance(data, bytes) else data.encode("utf-8")
        self.starts = [0]
        for i, b in enumerate(self.data):
            if b == 10:
                self.starts.append(i + 1)

    def locate(self, off):
        lo, hi = 0, len(self.starts) - 1
        while lo < hi:
            m = (lo + hi + 1) // 2
            if self.starts[m] <= off:
                lo = m
            else:
                hi = m - 1
        return (lo + 1, off - self.starts[lo] + 1)

    def offset(self, line, col):
        return self.starts[line - 1] + col - 1

    def slice(self, start, end):
        return self.data[self.offset(*start):self.offset(*end)]


def cleanup(work):
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
