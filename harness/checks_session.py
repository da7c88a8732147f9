"""Whole runs of the tool over lists of files: replays of the behaviours of spec/Session.tla."""
import json
import os
import re
import shutil

import corpus
import tlc
import tool
from batch import Batch
from checks_info import REGIME
from lang import Program

INV = {"P04": ["IdsPartitionedByFile"],
       "P13": ["FailuresIsolated", "FailedUntouched", "ExitStatus"],
       "P14": ["AtMostOnce", "OnlyNamed", "EveryGoodFileMutated"],
       "P18": ["FirstIdIsWhatPrecedes"]}
_CHECK = None
FILES = []       # name, lang, kind, text (None when the file does not exist), counts
EXTRA = {}       # headers and bystanders
SINGLE = {}      # (file, opt, track) -> (text, info) when processed alone


# a file is written back through a temporary file beside it; this name leaves no room for one
NAME = {"locked.c": "l" * 248 + ".c"}
SINK = {"file": "info.json", "none": None, "full": "full", "nowhere": "no/such/place/info.json"}


def layout(d):
    os.makedirs(os.path.join(d, "sub"))
    for name, _, _, text, _ in FILES:
        if text is not None:
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
    for name, text in EXTRA.items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)


def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files + dirs:
            p = os.path.join(base, f)
            r = os.path.relpath(p, d)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir",)
            else:
                with open(p, "rb") as fh:
                    out[r] = ("file", fh.read(), os.stat(p).st_mode & 0o777)
    return out


class Obs:
    pass


def observe(args, opt, track, sink="file", tag="s", cwd=None, clang=()):
    """lay the files out, run the tool on args (relative paths), report what happened"""
    d = os.path.join(_CHECK.work, "%s-%d" % (tag, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    layout(d)
    o = Obs()
    if sink == "full":
        os.symlink("/dev/full", os.path.join(d, "full"))
    o.before = snapshot(d)
    run = tool.dredd(_CHECK.exe, args, SINK[sink], opt=opt, track=track, clang=clang, cwd=d)
    o.rc, o.out = run.rc, run.out
    o.after = snapshot(d)
    o.info = None
    if "info.json" in o.after:
        try:
            o.info = json.loads(o.after["info.json"][1].decode("utf-8", "surrogateescape"))
        except ValueError:
            o.out += "\n[mutation info is not JSON]"
    o.dir = d
    shutil.rmtree(d, ignore_errors=True)
    return o


def text(snap, name):
    e = snap.get(name)
    return e[1] if e and e[0] == "file" else None


def shifted(a, b, k):
    """b is a with identifiers moved up by k: some of the numbers differ, by exactly k, and nothing else"""
    if a is None or b is None:
        return a is b
    x, y = re.split(rb"(\d+)", a), re.split(rb"(\d+)", b)
    return len(x) == len(y) and all(p == q or (p.isdigit() and q.isdigit() and int(q) == int(p) + k) for p, q in zip(x, y))


def jshift(j, k):
    if isinstance(j, dict):
        return {n: (v + k if n == "mutationId" else jshift(v, k)) for n, v in j.items()}
    if isinstance(j, list):
        return [jshift(v, k) for v in j]
    return j


def tree(fi):
    return fi.get("mutationTree")


def ids(fi):
    return sorted(x for g in tool.file_groups(fi) for _, x in g.insts)


def file_of(o, fi):
    p = os.path.normpath(os.path.join(o.dir, fi.get("filename", "")))
    return os.path.relpath(p, o.dir)


def reported(o):
    """the list of failed files that closes the output"""
    out = []
    lines = o.out.rstrip("\n").split("\n")
    while lines and any(x in lines[-1].split() for x in ("full", SINK["nowhere"])):
        lines.pop()
    for line in reversed(lines):
        if re.match(r"\s+\S.*\.(c|cc)$", line):
            out.append(os.path.relpath(os.path.normpath(os.path.join(o.dir, line.strip())), o.dir))
        else:
            break
    return sorted(out)


def judge(prop, o, em, opt, track):
    """-> list of complaints about one observed run"""
    args, _, rc, failed, blocks, total, skipped, sink = em
    info = sink == "file"
    bad = []
    names = [f[0] for f in FILES]
    compile_failed = sorted({names[f - 1] for f in failed if FILES[f - 1][2] in ("err", "locked")})
    gone = sorted({names[f - 1] for f in failed if FILES[f - 1][2] == "gone"})
    mutated = {names[f - 1]: (f - 1, first) for f, first in blocks}
    if o.rc < 0 or o.rc > 100:
        return ["the tool did not terminate normally: %s\n%s" % (o.rc, o.out[-1500:])]
    infos = [] if o.info is None else o.info.get("infoForFiles", [])

    def content():
        for n, (f, first) in mutated.items():
            s = SINGLE[(f, opt, track)]
            t = text(o.after, n)
            if t == text(o.before, n):
                bad.append("%s was not mutated" % n)
            elif not shifted(s[0], t, first):
                bad.append("%s: the result differs from what the file gets on its own (ids moved by %d)" % (n, first))

    def information():
        got = [file_of(o, fi) for fi in infos]
        want = [names[f - 1] for f, _ in blocks]
        if got != want:
            bad.append("mutation information covers %s; expected %s" % (got, want))
            return
        for (f, first), fi in zip(blocks, infos):
            if tree(fi) != jshift(tree(SINGLE[(f - 1, opt, track)][1]), first):
                bad.append("%s: the information differs from what the file gets on its own (ids moved by %d)" % (names[f - 1], first))

    if prop == "P04":
        if o.info is None:
            return ["no mutation information was written\n" + o.out[-800:]]
        got = [file_of(o, fi) for fi in infos]
        if got != [names[f - 1] for f, _ in blocks]:
            bad.append("files in the mutation information: %s; expected %s" % (got, [names[f - 1] for f, _ in blocks]))
        nxt = 0
        for (f, first), fi in zip(blocks, infos):
            n = FILES[f - 1][4][1 if opt else 0]
            if ids(fi) != list(range(first, first + n)):
                x = ids(fi)
                bad.append("%s: ids %s..%s (%d of them, %d distinct); expected %d..%d" % (
                    names[f - 1], x[0] if x else "-", x[-1] if x else "-", len(x), len(set(x)), first, first + n - 1))
        for n, (f, first) in mutated.items():   # the ids the text reacts to are the ids of the record
            t = text(o.after, n)
            if t != text(o.before, n) and not shifted(SINGLE[(f, opt, track)][0], t, first):
                bad.append("%s: the mutated text is not numbered from %d" % (n, first))
    elif prop == "P13":
        if (o.rc == 0) != (rc == 0):
            bad.append("exit status %d; expected %s" % (o.rc, "success" if rc == 0 else "failure"))
        if sink in ("full", "nowhere") and SINK[sink] not in o.out:
            bad.append("the mutation information could not be written to %s, which is not mentioned" % SINK[sink])
        if reported(o) != compile_failed:
            bad.append("files reported as not mutated: %s; files that do not compile or cannot be written: %s" % (reported(o), compile_failed))
        for g in gone:
            if g not in o.out:
                bad.append("%s does not exist and is not mentioned" % g)
        for n in compile_failed:
            if o.before[n] != o.after.get(n):
                bad.append("%s does not compile or cannot be written back but was changed" % n)
        for n in gone:
            if n in o.after:
                bad.append("%s did not exist and was created" % n)
        content()
        if info:
            if o.info is None:
                bad.append("no mutation information was written")
            else:
                information()
    elif prop == "P14":
        want = set(mutated) | ({"info.json"} if info else set())
        changed = {n for n in set(o.before) | set(o.after) if o.before.get(n) != o.after.get(n)}
        for n in sorted(changed - want):
            bad.append("%s was %s" % (n, "created" if n not in o.before else "removed" if n not in o.after else "changed"))
        for n in sorted(want - changed):
            bad.append("%s was not %s" % (n, "written" if n == "info.json" else "mutated"))
        content()
    elif prop == "P18":
        content()
        if info and o.info is not None:
            information()
    return bad


def _single(f, opt, track):
    o = observe([FILES[f][0]], opt, track, tag="one")
    return text(o.after, FILES[f][0]), (o.info or {}).get("infoForFiles", [None])[0] if o.info and o.info.get("infoForFiles") else None, o.out, o.rc


def _replay(prop, em, opt, track, keep):
    args = [NAME.get(a, a) for _, a in em[0]]
    o = observe(args, opt, track, em[7])
    bad = judge(prop, o, em, opt, track)
    out = []
    if bad:
        key = "%s %s%s%s" % (" ".join(args), REGIME[opt], " tracking" if track else "", "" if em[7] == "file" else " information to " + em[7])
        out = [(key, "dredd %s\n%s\n--- output\n%s" % (" ".join(args), "\n".join(bad), o.out[-1500:]), None)]
    sample = [{"arguments": args, "optimised": bool(opt), "tracking": bool(track), "expected ids": em[4], "exit": em[2]}] if keep else []
    return out, {"traces_validated_against_impl": 1}, sample


def prepare(check, maxlen):
    global _CHECK
    _CHECK = check
    check.start_build()
    h = tlc.launch(check.work, "Session", {"MAXLEN": maxlen, "EMIT": "TRUE"}, INV[check.prop])
    r = tlc.collect(h)
    check.model(r)
    check.exe
    ems = []
    for e in r.emitted:
        if e[0] != "files":
            ems.append(e)
            continue
        for name, l, kind, how, progs, counts in e[1]:
            if kind == "gone":
                FILES.append((NAME.get(name, name), l, kind, None, counts))
                continue
            b = Batch(l, [Program(p) for p in progs], 0, 0, prefix="fn_%s_" % re.sub(r"\W", "_", name))
            t = b.text
            if how == "nothing":
                t = "int only_a_declaration(int x);\nextern int data[3];\n"
            if how == "header":
                t = '#include "hdr.h"\n' + t
            if how == "late":
                t += "int broken(int x) { return undeclared_name + x; }\n"
            if how == "noinclude":
                t = '#include "no_such_header.h"\n' + t
            if how == "badheader":
                t = '#include "bad.h"\n' + t
            FILES.append((NAME.get(name, name), l, kind, t, counts))
    EXTRA.update({"hdr.h": "static inline int in_header(int x) { if (x > 3) { x += 2; } return x * 2 + 1; }\n#define TWICE(x) ((x) + (x))\n",
                  "bad.h": "static inline int in_bad_header(int x) { return x + no_such_thing; }\n",
                  "bystander.c": "int bystander(int x) { return x + 1; }\n",
                  "sub/bystander.cc": "int bystander2(int x) { return x + 1; }\n"})
    for f, (name, l, kind, t, counts) in enumerate(FILES):
        if kind == "ok":
            for opt in (0, 1):
                for track in (0, 1):
                    x = _single(f, opt, track)
                    SINGLE[(f, opt, track)] = x
                    if x[3] != 0 or (counts[opt] and not x[1]):
                        check.violation("%s alone %s" % (name, REGIME[opt]), "dredd %s: exit %s, %s\n%s" % (
                            name, x[3], "no information" if not x[1] else "", x[2][-1500:]), {name.replace("/", "_"): t})
    return ems


def run(check):
    ems = prepare(check, 4 if check.tier == "thorough" else 3)
    if check.violations:
        return
    jobs = []
    import random
    rng = random.Random(check.seed)
    for n, e in enumerate(sorted(ems)):
        opt, sink = e[1], e[7]
        if sink != "file" and check.prop in ("P04",) or sink in ("full", "nowhere") and check.prop == "P18":
            continue
        short = len(e[0]) <= 2 or check.tier == "thorough"
        if sink == "file":
            if short:
                for track in (0, 1):
                    jobs.append((check.prop, e, opt, track, False))
            elif rng.random() < 0.4:
                jobs.append((check.prop, e, opt, rng.randrange(2), False))
        elif short or rng.random() < 0.06:
            jobs.append((check.prop, e, opt, rng.randrange(2), False))
    for k in (7, 77, 777, 1777):
        if k < len(jobs):
            jobs[k] = jobs[k][:4] + (True,)
    rng.shuffle(jobs)
    gather(check, _replay, jobs)
    if check.prop == "P14":
        directories(check)
    if check.prop == "P18":
        determinism(check)


def gather(check, fn, jobs):
    for viols, cnt, samples in corpus.pmap(fn, jobs):
        for v in viols:
            check.violation(*v)
        for c, x in cnt.items():
            check.count(c, x)
        for s in samples:
            check.sample(s)


def p04(check):
    run(check)


def p13(check):
    run(check)


def p14(check):
    run(check)


# ---- P14: files with one name in several directories, through a compilation database ----

def directories(check):
    d = os.path.join(check.work, "cdb")
    good = [f for f in FILES if f[2] == "ok" and f[1] == "c" and f[4][1] and "#include \"" not in f[3]]
    for order in ((0, 1), (1, 0), (0, 0), (0, 1, 0)):
        for rel in (True, False):
            shutil.rmtree(d, ignore_errors=True)
            dirs = [os.path.join(d, n) for n in ("one", "two")]
            for n, f in zip(dirs, good):
                os.makedirs(n)
                with open(os.path.join(n, "x.c"), "w") as o:
                    o.write(f[3])
            with open(os.path.join(d, "compile_commands.json"), "w") as o:
                json.dump([{"directory": n, "file": "x.c" if rel else os.path.join(n, "x.c"),
                            "command": "cc -c x.c" if rel else "cc -c %s/x.c" % n} for n in dirs], o)
            before = snapshot(d)
            cmd = [os.path.join(n, "x.c") for n in (dirs[i] for i in order)]
            import subprocess
            r = subprocess.run([check.exe, "-p", d] + cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            after = snapshot(d)
            want = {"%s/x.c" % ("one", "two")[i] for i in order}
            changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
            key = "compilation database %s %s" % (order, "relative" if rel else "absolute")
            if changed != want:
                check.violation(key, "files changed: %s; files named: %s\n%s" % (
                    sorted(changed), sorted(want), r.stdout.decode("utf-8", "replace")[-1500:]))
            for n in sorted(want & changed):
                k = list(FILES).index(good[("one", "two").index(n[:3])])
                if not any(shifted(SINGLE[(k, 1, 0)][0], text(after, n), off) for off in {0} | {f[4][1] for f in good}):
                    check.violation(key + " " + n, "%s is not what the file gets on its own" % n)
            check.validated()


# ---- P18: the same input gives the same output ----

def _det(l, b, k, regime, track):
    batch = corpus.make(l, b, k, b % 3, _CHECK.seed)
    name = "x" + corpus.EXT[l]
    outs = []
    # again; elsewhere; without information; from another directory; with an environment of its own; after another file
    for n, (where, info, cwd) in enumerate((("p", True, False), ("p", True, False), ("some/where/else", True, True), ("q", False, False))):
        d = os.path.join(_CHECK.work, "det-%s%d%d%d-%d" % (l, b, regime, track, n), where)
        os.makedirs(d)
        f = os.path.join(d, name)
        with open(f, "w") as o:
            o.write(batch.text)
        r = tool.dredd(_CHECK.exe, [name if cwd else f], f + ".json" if info else None, opt=regime, track=track,
                       clang=["-std=c17"] if l == "c" else ["-std=c++20"], cwd=d if cwd else None)
        with open(f, "rb") as fh:
            t = fh.read()
        outs.append((r.rc, t, r.info["infoForFiles"] if r.info else None))
    viols = []
    key = "%s batch %d %s%s" % (l, b, REGIME[regime], " tracking" if track else "")
    what = ["", "the same run repeated", "the same file in another directory", "the same run without mutation information"]
    for n in (1, 2, 3):
        if outs[n][0] != outs[0][0] or outs[n][1] != outs[0][1]:
            viols.append((key + " " + what[n], what[n] + " gives a different file", {"first" + corpus.EXT[l]: outs[0][1], "second" + corpus.EXT[l]: outs[n][1]}))
        if n < 3 and [tree(x) for x in outs[n][2] or []] != [tree(x) for x in outs[0][2] or []]:
            viols.append((key + " information", what[n] + " gives different mutation information", {"input" + corpus.EXT[l]: batch.text}))
    # after another file
    d = os.path.join(_CHECK.work, "det-%s%d%d%d-two" % (l, b, regime, track))
    os.makedirs(d)
    small = FILES[0 if l == "c" else 1]
    with open(os.path.join(d, small[0]), "w") as o:
        o.write(small[3])
    with open(os.path.join(d, name), "w") as o:
        o.write(batch.text)
    r = tool.dredd(_CHECK.exe, [small[0], name], "i.json", opt=regime, track=track, clang=["-std=c17"] if l == "c" else ["-std=c++20"], cwd=d)
    with open(os.path.join(d, name), "rb") as fh:
        t = fh.read()
    with open(os.path.join(d, "i.json")) as fh:
        j = json.load(fh)
    k = small[4][regime]
    if not shifted(outs[0][1], t, k):
        viols.append((key + " after another file", "the file is mutated differently when another file precedes it (beyond ids moved by %d)" % k,
                      {"alone" + corpus.EXT[l]: outs[0][1], "second" + corpus.EXT[l]: t}))
    if len(j["infoForFiles"]) != 2 or tree(j["infoForFiles"][1]) != jshift(tree(outs[0][2][0]), k):
        viols.append((key + " after another file", "the mutation information differs when another file precedes (beyond ids moved by %d)" % k, {"input" + corpus.EXT[l]: batch.text}))
    for n in ("0", "1", "2", "3", "two"):
        shutil.rmtree(os.path.join(_CHECK.work, "det-%s%d%d%d-%s" % (l, b, regime, track, n)), ignore_errors=True)
    return viols, {"traces_validated_against_impl": 5}, []


def determinism(check):
    h = corpus.start(check, fams=(1, 4, 9, 10), invariants=["IdsPartition", "WalkIsNumbering"])
    corpus.load(check, h)
    js = [(l, b, k, r, t) for l, b, k in corpus.batches(120) for r in (0, 1) for t in (0, 1) if check.tier == "thorough" or (b + r + t) % 2]
    gather(check, _det, js)


def p18(check):
    run(check)
