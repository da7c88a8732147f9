"""Checks on the mutated text as a program: it compiles and links (P15), and what is needed at compile time or
never evaluated is left alone (P16)."""
import json
import os
import random
import subprocess
import tempfile

import checks_exec
import corpus
import hazards
import refcache
import tool
from batch import Batch
from checks_exec import _gather, _prepare, compile_error, confirm, discard
from checks_info import REGIME, _rejected, _start
from checks_select import World
from execute import CompileError, Mutated, cc, prepare, sh

HERE = os.path.dirname(os.path.abspath(__file__))
_CHECK = None
MODES = [(r, t) for r in (0, 1) for t in (False, True)]
# the language the files are written in decides which standards apply to them
STDS = {"c": ["c11", "gnu11", "c17", "gnu17", "c2x"], "cpp": ["c++20", "gnu++20", "c++2b"]}
OLDER = {"c": ["c99", "gnu99"], "cpp": ["c++11", "c++14", "c++17"]}


def mode(r, t):
    return "%s, %s" % (REGIME[r], "tracking" if t else "mutating")


def compiles(lang, std, path, cwd, full=False):
    """the compiler's verdict on a file as it stands: no precompiled headers, nothing switched off"""
    c = [tool.CLANG if lang == "c" else tool.CLANGXX, "-std=" + std, "-fno-caret-diagnostics"] + (["-c", "-o", path + ".o"] if full else ["-fsyntax-only"]) + [path]
    r = subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode == 0:
        return None
    lines = r.stdout.decode("utf-8", "replace").split("\n")
    return "\n".join([x for x in lines if "error" in x][:6] or lines[-6:])


def _verdict(key, lang, std, text, modes, what, full=False):
    """mutate the text in each mode and compile the outcome -> violations"""
    ext = corpus.EXT[lang]
    viols, n = [], 0
    data = text if isinstance(text, bytes) else text.encode("utf-8")
    with tempfile.TemporaryDirectory(dir=_CHECK.work, prefix="v") as d:
        f = os.path.join(d, "x" + ext)
        for r, t in modes:
            with open(f, "wb") as o:
                o.write(data)
            run = tool.dredd(_CHECK.exe, [f], f + ".json", opt=bool(r), track=t, clang=["-std=" + std], cwd=d)
            k = "%s %s" % (key, mode(r, t))
            if run.rc != 0:
                viols.append((k, "%s\n-std=%s: the tool rejected a valid file (exit %s):\n%s" % (what, std, run.rc, run.out[-1200:]), {"input" + ext: data}))
                continue
            e = compiles(lang, std, f, d, full)
            n += 1
            if e:
                with open(f, "rb") as fh:
                    viols.append((k, "%s\nthe mutated file does not compile with -std=%s:\n%s" % (what, std, e), {"input" + ext: data, "mutated" + ext: fh.read()}))
    return viols, n


def _batch(l, b, k, r, t, style, std):
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    viols, n = _verdict("%s batch %d" % (l, b), l, std, batch.index.data, [(r, t)], "%d programs of the specification in one file" % len(batch.progs))
    return viols, {"traces_validated_against_impl": len(batch.progs) * n, "files_compiled": n}, []


def _alone(l, j, style, modes, std):
    p = corpus.PROGS[l][j]
    batch = Batch(l, [p], style, j)
    viols, n = _verdict(p.key + " alone", l, std, batch.index.data, modes, corpus.fn_text(batch, 0))
    return viols, {"traces_validated_against_impl": n, "files_compiled": n}, [{"program": corpus.fn_text(batch, 0), "standard": std}] if j % 997 == 0 else []


def probes(lang):
    out = []
    with open(os.path.join(HERE, "probes_%s.txt" % lang)) as f:
        for line in f:
            name, _, s = line.rstrip("\n").partition(": ")
            out.append((name, (s.replace("\\n", "\n") if "#" in s else s) + "\n"))
    return out


def _probe(lang, name, text):
    std = "gnu17" if lang == "c" else "gnu++20"
    viols, n = _verdict("probe %s %s" % (lang, name), lang, std, text, MODES, text, True)
    return viols, {"constructs_compiled": n}, []


def _world(l, regime, track, n):
    """several files, mutated in one run, linked into one program"""
    idx = list(range(n // 3, len(corpus.PROGS[l]), n))
    parts = [idx[f::3] for f in range(3)]
    w = World(_CHECK, l, regime, [[corpus.PROGS[l][j] for j in part] for part in parts], tag="v%d" % track, track=track)
    key = "%s three files %s" % (l, mode(regime, track))
    files = {"input%d%s" % (f, corpus.EXT[l]): b.text for f, b in enumerate(w.batches)}
    if w.run.rc != 0:
        return [(key, "the tool failed on valid files:\n" + w.run.out[-1200:], files)], {}, []
    try:
        w.build(_CHECK)
    except CompileError as e:
        return [(key, "the mutated files do not compile and link:\n" + str(e)[:1500], files)], {}, []
    return [], {"traces_validated_against_impl": len(w.progs), "programs_linked": 1}, []


def _mixed(regime, track):
    """C and C++ files in one program"""
    d = os.path.join(_CHECK.work, "mix%d%d" % (regime, track))
    os.makedirs(d)
    objs = []
    for l in ("c", "cpp"):
        for f in range(2):
            batch = Batch(l, corpus.PROGS[l][f + 3::150], 0, 0, prefix="%s%d_" % (l, f))
            src = os.path.join(d, "%s%d%s" % (l, f, corpus.EXT[l]))
            with open(src, "w") as o:
                o.write(batch.text)
            r = tool.dredd(_CHECK.exe, [src], src + ".json", opt=bool(regime), track=track)
            if r.rc:
                return [("mixed " + mode(regime, track), "the tool failed on a valid file:\n" + r.out[-1200:], {"input" + corpus.EXT[l]: batch.text})], {}, []
            rc, out = sh(cc(l) + ["-w", "-c", src, "-o", src + ".o"], d)
            objs.append(src + ".o")
            if rc:
                return [("mixed " + mode(regime, track), "the mutated file does not compile:\n" + out[:1500], {"input" + corpus.EXT[l]: batch.text})], {}, []
    main = os.path.join(d, "main.c")
    with open(main, "w") as o:
        o.write("extern void rt_run(int f, int v, int i) {}\nconst int rt_functions = 0;\nconst int rt_variants[1];\n")
    rc, out = sh([tool.CLANGXX, "-w", "-x", "c", main, "-x", "none"] + objs + prepare(_CHECK.work) + ["-o", os.path.join(d, "mixed")], d)
    if rc:
        return [("mixed " + mode(regime, track), "two C and two C++ files do not link into one program:\n" + out[:1500], {})], {}, []
    return [], {"programs_linked": 1}, []


def _dispatch(fn, *args):
    return globals()[fn](*args)


def p15(check):
    global _CHECK
    _CHECK = checks_exec._CHECK = check
    hz = hazards.start(check)
    _start(check)
    prepare(check.work)
    deep = check.tier == "thorough"
    rng = random.Random(check.seed)
    jobs = []
    for l, b, k in corpus.batches(120):
        for m, (r, t) in enumerate(MODES):
            for s in range(len(STDS[l]) if deep else 1):
                jobs.append(("_batch", l, b, k, r, t, (b + r + s) % 4, STDS[l][(b + m + s) % len(STDS[l])]))
    for l in ("c", "cpp"):
        for j, p in enumerate(corpus.PROGS[l]):
            ctx = ":ctx:" in p.key
            if deep:
                jobs.append(("_alone", l, j, j % 4, MODES, STDS[l][j % len(STDS[l])] if ctx else rng.choice(STDS[l] + OLDER[l])))
            elif ctx or rng.random() < (0.2 if l == "c" else 0.1):
                jobs.append(("_alone", l, j, 0, [MODES[rng.randrange(4)]], rng.choice(STDS[l] if ctx else STDS[l] + OLDER[l])))
        for name, text in probes(l):
            jobs.append(("_probe", l, name, text))
        for r, t in MODES:
            jobs.append(("_world", l, r, t, 4 if deep else 12))
    for r, t in MODES:
        jobs.append(("_mixed", r, t))
    jobs.sort(key=lambda j: (j[0] not in ("_world", "_mixed", "_batch"), j[1] != "cpp"))
    _gather(check, _dispatch, jobs)
    hazards.judge(check, hz, behave=False)
    check.assumptions = ["clang 17 decides whether a file compiles",
                         "besides the specification's programs, a fixed list of language constructs (probes_*.txt) is mutated and compiled"]


# ---- P16 ----------------------------------------------------------------------------------

def frozen_paths(p):
    out = []

    def walk(e, path):
        if e[0] == "Frozen":
            out.append(path)
            return
        for i, x in enumerate(e[7]):
            walk(x, path + (i + 1,))
    walk(p.body, ())
    return out


def _p16(l, b, k, regime, style):
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    which = [i for i, p in enumerate(batch.progs) if frozen_paths(p)]
    viols = []
    infos = {}
    for t in (False, True):
        f, r = corpus.mutate(_CHECK.exe, _CHECK.work, batch, "p16%s%d_%d%d" % (l, b, regime, t), regime, track=t)
        fi = corpus.finfo(r)
        if fi is None:
            return _rejected(l, b, regime, batch, r), {}, []
        infos[t] = (f, fi)
    n = parts = 0
    for t, (f, fi) in infos.items():
        pairs, extra, missing = corpus.match(batch, regime, fi)
        real = tool.file_groups(fi)
        for i in which:
            p = batch.progs[i]
            for path in frozen_paths(p):
                parts += 1
                span = batch.spans[i][path]
                for jg in real:
                    if span[0] <= jg.span[0] and jg.span[1] <= span[1] and not any(jg is x[2] for x in pairs):
                        viols.append(("%s %s" % (p.key, mode(regime, t)), "%s\n%r is needed at compile time or never evaluated, but %s %s is offered at %s" % (
                            corpus.fn_text(batch, i), batch.source(i, path), jg.kind, [a for a, _ in jg.insts], jg.span), {"input" + corpus.EXT[l]: batch.text}))
            lost = [g for j, g in missing if j == i]
            if lost:
                viols.append(("%s %s neighbours" % (p.key, mode(regime, t)), "%s\nordinary code next to a constant is not mutated: %s" % (
                    corpus.fn_text(batch, i), [(g.kind, batch.source(i, g.path)) for g in lost]), {"input" + corpus.EXT[l]: batch.text}))
            n += 1
    # the program still means the same
    f = infos[False][0]
    try:
        m = Mutated(_CHECK.work, "m" + os.path.basename(f), batch, f)
    except CompileError as e:
        return viols + compile_error(l, b, regime, batch, f, e), {}, []
    m.src = f
    table = [refcache.TABLE[l][j] for j in range(b, len(corpus.PROGS[l]), k)]
    jobs = [(None, i, table[i][0][0]) for i in which]
    for (env, i, mask), row in zip(jobs, m.run(jobs)):
        if refcache.fold(row, mask) != table[i][0][1]:
            viols += confirm(_CHECK.work, m, batch, i, {}, env, "the constants do not keep their values", "%s %s value" % (batch.progs[i].key, REGIME[regime]), "p16%s%d%d" % (l, b, regime))
    discard(m)
    s = [{"program": corpus.fn_text(batch, which[0]), "left alone": [batch.source(which[0], q) for q in frozen_paths(batch.progs[which[0]])]}] if which and b == 0 else []
    return viols, {"traces_validated_against_impl": n, "constant_or_unevaluated_parts": parts}, s


def p16(check):
    global _CHECK
    _CHECK = check
    _prepare(check, fams=(9, 10, 11))
    refcache.load(check)
    styles = [0, 2, 1]
    jobs = [(l, b, k, r, styles[(b + r) % 3]) for l, b, k in corpus.batches(60) for r in (0, 1)]
    _gather(check, _p16, jobs)
