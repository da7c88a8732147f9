"""Running batches: the reference meaning (from the specification) and the mutated program (from the tool)."""
import os
import struct
import subprocess

import tool
from batch import env_header
from lang import Reference, ctype, edits_for

HERE = os.path.dirname(os.path.abspath(__file__))
NIN = 44
SITES = 4096
NOTRUN, DONE, UB, DIVERGES, CRASH, TIMEOUT = range(6)
FULL = (1 << NIN) - 1
FLOATS = ("float", "double", "ldouble")


class CompileError(Exception):
    pass


def sh(cmd, cwd, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def cc(lang):
    return [tool.CLANG, "-std=c17"] if lang == "c" else [tool.CLANGXX, "-std=c++20"]


def prepare(work, driver="drv"):
    """compile the runtime once; returns the object files"""
    objs = []
    for n in ("rt", driver):
        o = os.path.join(work, n + ".o")
        if not os.path.exists(o):
            rc, out = sh([tool.CLANG, "-std=gnu17", "-O1", "-w", "-c", os.path.join(HERE, n + ".c"), "-o", o], work)
            if rc:
                raise CompileError(out)
        objs.append(o)
    return objs


STD = "atomic cinttypes cstddef cstdint cstdlib cstring fstream functional sstream string".split()


def headers_pch(work):
    """the standard headers, precompiled (whether the mutated file includes what it needs is checked elsewhere)"""
    pch = os.path.join(work, "std.pch")
    if not os.path.exists(pch):
        h = os.path.join(work, "std.h")
        with open(h, "w") as f:
            f.write("".join("#include <%s>\n" % x for x in STD))
        rc, out = sh(cc("cpp") + ["-O0", "-w", "-x", "c++-header", h, "-o", pch], work)
        if rc:
            raise CompileError(out)
    return pch


def runner(lang, i, prog, call):
    args = ", ".join(("RT_F(%s, %d)" if t in FLOATS else "RT_I(%s, %d)") % (ctype(lang, t), n)
                     for n, (v, t, q) in enumerate(prog.params))
    call = "%s(%s)" % (call, args)
    if prog.ret == "void":
        return "    %s; return;" % call
    if prog.ret in FLOATS:
        return "    rt_flt(%s); return;" % call
    return "    rt_int((long)%s); return;" % call


def run_table(lang, progs, nvariants, callee):
    """the generated rt_run"""
    ec = 'extern "C" ' if lang == "cpp" else ""
    s = []
    for i, p in enumerate(progs):
        s.append("static void run_%d(int variant, int in) {\n  switch (variant) {" % i)
        for v in range(nvariants[i]):
            s.append("    case %d:\n%s" % (v, runner(lang, i, p, callee(i, v))))
        s.append("  }\n}")
    s.append(ec + "void rt_run(int fn, int variant, int in) {\n  switch (fn) {")
    for i in range(len(progs)):
        s.append("    case %d: run_%d(variant, in); return;" % (i, i))
    s.append("  }\n}")
    s.append("%s const int rt_functions; %s const int rt_functions = %d;" % (
        'extern "C"' if lang == "cpp" else "extern", "" if lang == "c" else "", len(progs)))
    s.append("%s const int rt_variants[]; const int rt_variants[] = {%s};" % (
        'extern "C"' if lang == "cpp" else "extern", ", ".join(map(str, nvariants))))
    return "\n".join(s) + "\n"


def reference(work, name, lang, progs, variants, reach=None, deaths=0):
    """variants[i] is a list of edit sets for program i.  Returns results[i][v][input] = (status, digest)."""
    objs = prepare(work)
    parts = ['#include "%s/rt.h"\n' % HERE, env_header(lang)]
    for i, p in enumerate(progs):
        for v, ed in enumerate(variants[i]):
            parts.append(Reference(p, ed, reach[i] if reach else None).function("r_%d_%d" % (i, v)))
    parts.append(run_table(lang, progs, [len(x) for x in variants], lambda i, v: "r_%d_%d" % (i, v)))
    src = os.path.join(work, name + (".c" if lang == "c" else ".cc"))
    with open(src, "w") as f:
        f.write("".join(parts))
    exe = os.path.join(work, name + ".exe")
    rc, out = sh(cc(lang) + ["-O0", "-w", "-fsanitize=undefined", "-fno-sanitize=vptr,function", "-fsanitize-trap=undefined",
                             src] + objs + ["-o", exe], work)
    if rc:
        raise CompileError(out[:3000])
    res = os.path.join(work, name + ".out")
    if reach:
        rc, out = sh([exe, "reach", res, str(deaths)], work)
        if rc:
            raise CompileError("reach run failed: %d" % rc)
        table = [[[] for _ in range(NIN)] for _ in progs]
        with open(res) as f:
            for line in f:
                w = list(map(int, line.split()))
                table[w[0]][w[1]].append((w[3], frozenset(x for x in w[4:] if x < SITES), frozenset(x - SITES for x in w[4:] if x >= SITES)))
        os.unlink(res)
        return table
    rc, out = sh([exe, "ref", res], work)
    if rc:
        raise CompileError("reference run failed: %d %s" % (rc, out))
    with open(res, "rb") as f:
        data = f.read()
    cells = list(struct.iter_unpack("<QB", data))
    k, results = 0, []
    for i, p in enumerate(progs):
        row = []
        for v in variants[i]:
            row.append([(c[1], c[0]) for c in cells[k:k + NIN]])
            k += NIN
        results.append(row)
    os.unlink(res)
    return results


class Mutated:
    """A mutated batch, compiled; run(jobs) executes (env, function, mask) jobs, one process each."""

    def __init__(self, work, name, batch, src, flags=(), sources=(), static=True, pch=True):
        self.work, self.name, self.batch = work, name, batch
        objs = prepare(work)
        lang = batch.lang
        main = os.path.join(work, name + ".main" + (".c" if lang == "c" else ".cc"))
        progs = batch.progs
        decl = "".join("%s %s%d(%s);\n" % (ctype(lang, p.ret), batch.prefix, i,
                                           ", ".join(ctype(lang, t) for v, t, q in p.params) or "void")
                       for i, p in enumerate(progs))
        with open(main, "w") as f:
            f.write('#include "%s/rt.h"\n%s%s' % (HERE, decl, run_table(lang, progs, [1] * len(progs),
                                                                     lambda i, v: "%s%d" % (batch.prefix, i))))
        self.exe = os.path.join(work, name + ".exe")
        o = os.path.join(work, name + ".o")
        pre = ["-include-pch", headers_pch(work)] if pch and lang == "cpp" else []
        rc, out = sh(cc(lang) + ["-O0", "-w"] + pre + ["-c", src, "-o", o] + list(flags), work)
        if rc:
            raise CompileError(out[:3000])
        rc, out = sh(cc(lang) + ["-O0", "-w", main, o] + objs + list(sources) + ["-o", self.exe, "-pthread"] + (["-static"] if static else []), work)
        if rc:
            raise CompileError(out[:3000])

    @classmethod
    def linked(cls, work, name, lang, parts, flags=(), static=True, driver="drv"):
        """a program of several mutated files; parts: [(batch, source)]; functions are numbered through"""
        self = cls.__new__(cls)
        self.work, self.name, self.batch = work, name, None
        objs = prepare(work, driver)
        ext = ".c" if lang == "c" else ".cc"
        progs = [p for b, _ in parts for p in b.progs]
        names = ["%s%d" % (b.prefix, i) for b, _ in parts for i in range(len(b.progs))]
        main = os.path.join(work, name + ".main" + ext)
        decl = "".join("%s %s(%s);\n" % (ctype(lang, p.ret), n, ", ".join(ctype(lang, t) for v, t, q in p.params) or "void")
                       for n, p in zip(names, progs))
        with open(main, "w") as f:
            f.write('#include "%s/rt.h"\n%s%s' % (HERE, decl, run_table(lang, progs, [1] * len(progs), lambda i, v: names[i])))
        self.exe = os.path.join(work, name + ".exe")
        rc, out = sh(cc(lang) + ["-O0", "-w"] + list(flags) + [main] + [x for _, x in parts] + objs + ["-o", self.exe, "-pthread"] +
                     (["-static"] if static else []), work)
        if rc:
            raise CompileError(out[:3000])
        return self

    def run(self, jobs, sec=2, env=None):
        """jobs: [(env value or None, function, mask)] -> [[(status, digest)] * NIN]"""
        jf = os.path.join(self.work, self.name + ".jobs")
        of = os.path.join(self.work, self.name + ".res")
        with open(jf, "w") as f:
            for e, fn, mask in jobs:
                f.write("%s %d %d %x\n" % ("-" if e is None else "%" if e == "" else e, fn, sec, mask))
        r = subprocess.run([self.exe, "mut", jf, of], cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=600, env=env)
        with open(of, "rb") as f:
            cells = list(struct.iter_unpack("<QB", f.read()))
        os.unlink(of)
        return [[(c[1], c[0]) for c in cells[k * NIN:(k + 1) * NIN]] for k in range(len(jobs))]


    def replay(self, lines, tag=""):
        """schedules for sched.c -> [(trouble, [(done, digest) per event])]"""
        jf = os.path.join(self.work, self.name + tag + ".jobs")
        of = os.path.join(self.work, self.name + tag + ".res")
        with open(jf, "w") as f:
            f.write("".join(x + "\n" for x in lines))
        subprocess.run([self.exe, jf, of], cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        out = []
        with open(of) as f:
            for line in f:
                w = line.split()
                out.append((int(w[0]), [(int(x.split(":")[0]), int(x.split(":")[1], 16)) for x in w[1:]]))
        os.unlink(of)
        os.unlink(jf)
        return out

    def track(self, jobs):
        """jobs: [(function, mask of inputs, repeat, death)] -> [(status, digest, [ids in the order recorded])]"""
        jf = os.path.join(self.work, self.name + ".jobs")
        of = os.path.join(self.work, self.name + ".res")
        tf = os.path.join(self.work, self.name + ".trk")
        with open(jf, "w") as f:
            for j in jobs:
                f.write("%d %x %d %d\n" % j)
        subprocess.run([self.exe, "track", jf, of, tf], cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        out = []
        with open(of) as f:
            for line in f:
                w = line.split()
                out.append((int(w[2]), int(w[3], 16), list(map(int, w[4:]))))
        os.unlink(of)
        return out


def defined_mask(row):
    m = 0
    for i, (st, h) in enumerate(row):
        if st == DONE:
            m |= 1 << i
    return m
