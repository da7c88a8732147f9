"""What the query script says about mutants, against the specification's mutants and the original text."""
import contextlib
import io
import json
import os
import re
import runpy
import subprocess
import sys

import corpus
import tool
from batch import Batch
from checks_exec import _gather
from checks_info import REGIME, _rejected, _start
from lang import BINSYM, PREC, UNSYM, at, prec, strip

_CHECK = None
SCRIPT = os.path.join(tool.REPO, "scripts", "query_mutant_info.py")
CONST = {"True": ["true"], "False": ["false"], "ZeroInt": ["0"], "OneInt": ["1"], "MinusOneInt": ["-", "1"],
         "ZeroFloat": ["0.0"], "OneFloat": ["1.0"], "MinusOneFloat": ["-", "1.0"]}
TOK = re.compile(r"\s+|\\\n|/\*.*?\*/|//[^\n]*|(\d+\.\d*[fFlL]?|\w+|'(?:\\.|[^'])*'|<<=|>>=|\+\+|--|->|&&|\|\||<<|>>|[-+*/%&|^<>=!]=|.)", re.S)


def toks(s):
    return [m.group(1) for m in TOK.finditer(s) if m.group(1)]


def ask(args):
    """the script's answer, in this process -> (status, text)"""
    old, out = sys.argv, io.StringIO()
    sys.argv = [SCRIPT] + args
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(SCRIPT, run_name="__main__")
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception as e:  # what an uncaught exception does to the script
        rc, _ = 1, out.write("%s: %s" % (type(e).__name__, e))
    finally:
        sys.argv = old
    return rc, out.getvalue()


def ask_cli(args):
    r = subprocess.run([sys.executable, SCRIPT] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def operand(text, e, limit):
    """how an operand may be written under an operator: in parentheses, or bare where that means the same"""
    t = toks(text)
    return [["("] + t + [")"]] + ([t] if prec(e) >= limit else [])


def accepted(p, g, act, text):
    """the token sequences that denote the replacement; text(path) is original text"""
    e = at(p.body, g.path)
    if g.kind == "ReplaceExpr":
        if act in CONST:
            return [CONST[act], ["("] + CONST[act] + [")"]]
        return [[UNSYM[act[len("Insert"):]]] + o for o in operand(text(g.path), e, 14)]
    a = g.path + (1,)
    if g.kind == "ReplaceUnary":
        if act == "Operand":
            return operand(text(a), at(p.body, a), 0)
        if act.startswith("Post"):
            return [o + [UNSYM[act]] for o in operand(text(a), at(p.body, a), 15)]
        return [[UNSYM[act]] + o for o in operand(text(a), at(p.body, a), 14)]
    b = g.path + (2,)
    if act in ("LHS", "RHS"):
        x = a if act == "LHS" else b
        return operand(text(x), at(p.body, x), 0)
    n = PREC.get(act, 1)
    lim = (14, 1) if act.endswith("Assign") else (n, n + 1)
    return [l + [BINSYM[act]] + r for l in operand(text(a), at(p.body, a), lim[0]) for r in operand(text(b), at(p.body, b), lim[1])]


HEAD = {"RemoveStmt": "Remove statement", "ReplaceExpr": "Replace expression",
        "ReplaceUnary": "Replace unary operator expression", "ReplaceBinary": "Replace binary operator expression"}


def verdict(answer, rel, span, kind, original, good):
    """None, or what is wrong with an answer"""
    rc, out = answer
    if rc != 0:
        return "the script fails: %s" % out[-300:]
    m = re.match(r"(.*?) at (.*), (\d+):(\d+)--(\d+):(\d+)\n\n([^\n]*):\n\n", out)
    if not m:
        return "the answer has another form: %r" % out[:200]
    if m.group(1) != HEAD[kind]:
        return "described as %r" % m.group(1)
    if m.group(2) != rel:
        return "said to be in %r, is in %r" % (m.group(2), rel)
    got = tuple(map(int, m.groups()[2:6]))
    if got != span[0] + span[1]:
        return "said to be at %s, is at %s" % (got, span[0] + span[1])
    rest = out[m.end():]
    if kind == "RemoveStmt":
        if rest.strip() != original.strip():
            return "the statement is shown as %r, is %r" % (rest, original)
        return None
    if "\n\nReplacement expression:\n\n" not in rest:
        return "no replacement is shown: %r" % rest
    orig, repl = rest.split("\n\nReplacement expression:\n\n")
    if orig.strip() != original.strip():
        return "the original is shown as %r, is %r" % (orig, original)
    if toks(repl) not in good:
        return "the replacement is shown as %r, should be %s" % (repl.strip(), " ".join(good[-1]))
    return None


def judge(ask, info, dirs, rel, batch, regime, fi, first, step, phase):
    """compare answers for every step-th mutant of a file, or (step 0) for one of each sort -> (violations, number)"""
    viols, n, seen = [], 0, set()
    pairs, extra, missing = corpus.match(batch, regime, fi)
    if phase % 2:
        pairs.reverse()
    crlf = b"\r\n" in batch.index.data
    for i, g, jg in pairs:
        p = batch.progs[i]
        text = lambda path: batch.source(i, path)
        for a, x in jg.insts:
            if a not in g.acts or step and (x + phase) % step:
                continue
            src = batch.source(i, g.path)
            sort = (g.kind, a, "\n" in src, src.isascii(), tuple(prec(at(p.body, g.path + (c,))) >= 14 for c in {"ReplaceUnary": (1,), "ReplaceBinary": (1, 2)}.get(g.kind, ())))
            if not step and sort in seen:
                continue
            seen.add(sort)
            n += 1
            good = [] if g.kind == "RemoveStmt" else accepted(p, g, a, text)
            bad = verdict(ask([info, "--path-prefix-replacement"] + dirs + ["--show-info-for-mutant", str(x)]),
                          rel, batch.spans[i][g.path], g.kind, src.replace("\r\n", "\n") if crlf else src, good)
            if bad:
                viols.append(("%s %s mutant %s %s %s" % (p.key, REGIME[regime], g.kind, list(g.path), a),
                              "%s\nmutant %d (%s %s): %s" % (corpus.fn_text(batch, i), x, g.kind, a, bad),
                              {"input" + corpus.EXT[p.lang]: batch.index.data}))
    return viols, n


def place(work, name, rels, batches):
    """the same files under <name>.mut and <name>.orig"""
    dirs = [os.path.join(work, name + ".mut"), os.path.join(work, name + ".orig")]
    for d in dirs:
        for r, b in zip(rels, batches):
            os.makedirs(os.path.dirname(os.path.join(d, r)), exist_ok=True)
            with open(os.path.join(d, r), "wb") as f:
                f.write(b.index.data)
    return dirs


def _p17(l, b, k, regime, style, step):
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    rel = os.path.join("src", "f%s" % corpus.EXT[l])
    name = "q%s%d_%d" % (l, b, regime)
    dirs = place(_CHECK.work, name, [rel], [batch])
    info = os.path.join(_CHECK.work, name + ".json")
    r = tool.dredd(_CHECK.exe, [os.path.join(dirs[0], rel)], info, opt=bool(regime))
    fi = corpus.finfo(r)
    if fi is None:
        return _rejected(l, b, regime, batch, r), {}, []
    viols, n = judge(ask, info, dirs, rel, batch, regime, fi, 0, step, _CHECK.seed + b)
    last = max(x for g in tool.file_groups(fi) for _, x in g.insts)
    rc, out = ask([info, "--largest-mutant-id"])
    if rc or out.strip() != str(last):
        viols.append(("%s largest %d" % (l, b), "the largest id is %d; the script says %r (exit %d)" % (last, out, rc), {}))
    for x in (last + 1, last + 1000):
        rc, out = ask([info, "--path-prefix-replacement"] + dirs + ["--show-info-for-mutant", str(x)])
        if rc == 0:
            viols.append(("%s unknown %d" % (l, b), "mutant %d does not exist; the script exits 0 and says %r" % (x, out[:200]), {}))
    s = [{"mutant": 5, "answer": ask([info, "--path-prefix-replacement"] + dirs + ["--show-info-for-mutant", "5"])[1]}] if b == 1 else []
    return viols, {"traces_validated_against_impl": n + 3}, s


def _p17_files(l, regime):
    """several files in one run, in directories of their own, asked through the command line"""
    k = max(1, len(corpus.PROGS[l]) // 12)
    batches = [Batch(l, corpus.PROGS[l][f * 7::k], f % 3, f, prefix="q%d_" % f) for f in range(3)]
    rels = ["a" + corpus.EXT[l], os.path.join("sub dir", "a" + corpus.EXT[l]), os.path.join("sub dir", "deep", "b" + corpus.EXT[l])]
    name = "qf%s%d" % (l, regime)
    dirs = place(_CHECK.work, name, rels, batches)
    info = os.path.join(_CHECK.work, name + ".json")
    r = tool.dredd(_CHECK.exe, [os.path.join(dirs[0], x) for x in rels], info, opt=bool(regime))
    infos = (r.info or {}).get("infoForFiles", [])
    if r.rc != 0 or len(infos) != 3:
        return [("%s several files" % l, "exit %d, %d files in the information\n%s" % (r.rc, len(infos), r.out[-800:]), {})], {}, []
    viols, n = [], 0
    variants = [dirs, [dirs[0] + os.sep, dirs[1] + os.sep]]
    for f, (rel, b, fi) in enumerate(zip(rels, batches, infos)):
        v, c = judge(ask_cli, info, variants[f % 2], rel, b, regime, fi, 0, max(1, b.total(regime) // 25), 0)
        viols += v
        n += c
    last = sum(b.total(regime) for b in batches) - 1
    rc, out = ask_cli([info, "--largest-mutant-id"])
    if rc or out.strip() != str(last):
        viols.append(("%s several files largest" % l, "the largest id is %d; the script says %r (exit %d)" % (last, out, rc), {}))
    for x in (last + 1, 10 * last, -1):
        rc, out = ask_cli([info, "--path-prefix-replacement"] + dirs + ["--show-info-for-mutant", str(x)])
        if rc == 0:
            viols.append(("%s several files unknown" % l, "mutant %d does not exist; the script exits 0 and says %r" % (x, out[:200]), {}))
    return viols, {"traces_validated_against_impl": n + 4}, []


def empty(check):
    """a run without any mutant"""
    f = os.path.join(check.work, "none.c")
    with open(f, "w") as o:
        o.write("int x;\n")
    info = os.path.join(check.work, "none.json")
    tool.dredd(check.exe, [f], info)
    rc, out = ask_cli([info, "--largest-mutant-id"])
    check.validated()
    if rc or out.strip() != "-1":
        check.violation("no mutants", "there are no mutants; asked for the largest id, the script says %r (exit %d)" % (out, rc))
    rc, out = ask_cli([info, "--path-prefix-replacement", check.work, check.work, "--show-info-for-mutant", "0"])
    if rc == 0:
        check.violation("no mutants", "mutant 0 does not exist; the script exits 0 and says %r" % out[:200])


def p17(check):
    global _CHECK
    _CHECK = check
    _start(check)
    check.exe
    empty(check)
    styles = [0, 3, 2, 1, 4]
    deep = check.tier == "thorough"
    jobs = [(l, b, k, r, styles[(b + r) % 5], 1 if deep else 0) for l, b, k in corpus.batches(60) for r in (0, 1)]
    _gather(check, _p17, jobs)
    _gather(check, _p17_files, [(l, r) for l in ("c", "cpp") for r in (0, 1)])
    check.assumptions = ["a replacement is to be read as an expression: it may need parentheses where it is substituted"]
