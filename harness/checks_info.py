"""Checks on what the tool reports: catalogue, locations, tree, agreement between modes."""
import json
import os

import corpus
import tool
from tool import groups_of_node

REGIME = ("all mutants", "optimised")


def _start(check, **kw):
    check.start_build()
    h = corpus.start(check, **kw)
    corpus.load(check, h)
    check.exe


def _run(check, job, styles, n=120):
    """job(lang, b, k, regime, style) for every batch; collects (violations, counters)"""
    global _CHECK
    _CHECK = check
    jobs = [(l, b, k, regime, styles[(b + regime) % len(styles)]) for l, b, k in corpus.batches(n) for regime in (0, 1)]
    for viols, cnt, samples in corpus.pmap(job, jobs):
        for v in viols:
            check.violation(*v)
        for c, x in cnt.items():
            check.count(c, x)
        for s in samples:
            check.sample(s)


def _rejected(l, b, regime, batch, r):
    return [("%s batch %d %s" % (l, b, REGIME[regime]),
             "the tool rejected a valid file (exit %s):\n%s" % (r.rc, r.out[-1500:]), {"input" + corpus.EXT[l]: batch.text})]


# ---- P06: the catalogue -------------------------------------------------------------------

def _p06(l, b, k, regime, style):
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    f, r = corpus.mutate(_CHECK.exe, _CHECK.work, batch, "%s%d_%d" % (l, b, regime), regime)
    fi = corpus.finfo(r)
    if fi is None:
        return _rejected(l, b, regime, batch, r), {}, []
    pairs, extra, missing = corpus.match(batch, regime, fi)
    bad = {}
    for i, g, jg in pairs:
        real = [a for a, _ in jg.insts]
        if real != g.acts:
            bad.setdefault(i, []).append("%s at %s (%r): offers %s, the rules give %s" % (
                g.kind, jg.span, batch.snippet(i, g.path), real, g.acts))
    for i, g in missing:
        bad.setdefault(i, []).append("%s at %s (%r): missing, the rules give %s" % (
            g.kind, batch.spans[i][g.path], batch.snippet(i, g.path), g.acts))
    for jg in extra:
        i = next((n for n in range(len(batch.progs))
                  if batch.spans[n][()][0] <= jg.span[0] and jg.span[1] <= batch.spans[n][()][1]), 0)
        bad.setdefault(i, []).append("%s at %s: offered (%s) although the rules give none" % (
            jg.kind, jg.span, [a for a, _ in jg.insts]))
    viols = [("%s %s" % (batch.progs[i].key, REGIME[regime]), corpus.fn_text(batch, i) + "\n" + "\n".join(t),
              {"input" + corpus.EXT[l]: batch.text, "info.json": json.dumps(r.info)}) for i, t in bad.items()]
    nm = sum(len(jg.insts) for _, _, jg in pairs)
    samples = []
    if b == 3 and pairs:
        i, g, jg = pairs[len(pairs) // 2]
        samples = [{"program": corpus.fn_text(batch, i), "regime": REGIME[regime], "group": [g.kind, list(g.path)], "mutants": jg.insts}]
    return viols, {"traces_validated_against_impl": len(batch.progs), "groups_compared": len(pairs), "mutants_compared": nm}, samples


def p06(check):
    _start(check)
    styles = [0] if check.tier == "quick" else [0, 1, 2]
    _run(check, _p06, styles)
    check.assumptions = ["programs of the families in spec/Programs.tla (bounded depth)",
                         "the typing rules in spec/Lang.tla match the front end (they do on every program compared)"]


# ---- P12: locations and snippets ----------------------------------------------------------

def _p12(l, b, k, regime, style):
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    f, r = corpus.mutate(_CHECK.exe, _CHECK.work, batch, "%s%d_%d" % (l, b, regime), regime)
    fi = corpus.finfo(r)
    if fi is None:
        return _rejected(l, b, regime, batch, r), {}, []
    viols = []
    # every reported group, identified by its kind and its mutants' ids, must be where the specification puts it
    byid = {jg.insts[0][1]: jg for jg in tool.file_groups(fi) if jg.insts}
    n = parts = 0
    exact = True
    for i, g, first in batch.predicted_groups(regime):
        if not g.acts:
            continue
        jg = byid.get(first)
        if jg is None or jg.kind != g.kind or [a for a, _ in jg.insts] != g.acts:
            exact = False      # the catalogue differs (another property); fall back to matching by extent
            break
    if exact:
        todo = [(i, g, byid[first]) for i, g, first in batch.predicted_groups(regime) if g.acts]
    else:
        todo, extra, missing = corpus.match(batch, regime, fi)
    for i, g, jg in todo:
        n += 1
        sub = {"ReplaceUnary": [1], "ReplaceBinary": [1, 2]}.get(g.kind, [])
        want = [g.path] + [g.path + (s,) for s in sub]
        node = corpus_at(batch.progs[i], g.path)
        errs = []
        if g.kind in ("ReplaceUnary", "ReplaceBinary") and jg.op != node[1]:
            errs.append("operator reported as %s, is %s" % (jg.op, node[1]))
        for p, (span, snip) in zip(want, jg.parts):
            parts += 1
            if span != batch.spans[i][p]:
                errs.append("part %s reported at %s, is at %s" % (list(p), span, batch.spans[i][p]))
            elif snip != batch.snippet(i, p):
                errs.append("part %s snippet %r, text is %r" % (list(p), snip, batch.snippet(i, p)))
        if errs:
            viols.append(("%s %s %s" % (batch.progs[i].key, REGIME[regime], g.kind), corpus.fn_text(batch, i) + "\n" + "\n".join(errs),
                          {"input" + corpus.EXT[l]: batch.text, "info.json": json.dumps(r.info)}))
    if fi["filename"] != f:
        viols.append(("filename", "reported as %r, is %r" % (fi["filename"], f), {}))
    s = [{"program": corpus.fn_text(batch, 0), "groups": [(jg.kind, jg.parts) for i, g, jg in todo if i == 0]}] if b == 2 else []
    return viols, {"traces_validated_against_impl": len(batch.progs), "groups_compared": n, "extents_compared": parts}, s


def corpus_at(p, path):
    from lang import at
    return at(p.body, path)


def p12(check):
    _start(check)
    _run(check, _p12, [2, 1, 3, 0, 4])
    check.assumptions = ["columns are counted in bytes from 1 and ends are exclusive", "ASCII sources"]


# ---- P11: the mutation tree ---------------------------------------------------------------

def tree_errors(nodes):
    """well-formedness: node 0 is the root, every other node has exactly one parent, no cycles"""
    errs = []
    seen = [0] * len(nodes)
    if not nodes:
        return errs
    for x, n in enumerate(nodes):
        for c in n.get("children", []):
            if not (0 <= c < len(nodes)):
                errs.append("node %d has child %d, which does not exist" % (x, c))
            else:
                seen[c] += 1
    if seen[0]:
        errs.append("the root has a parent")
    for x in range(1, len(nodes)):
        if seen[x] != 1:
            errs.append("node %d has %d parents" % (x, seen[x]))
    if not errs:
        todo, reach = [0], 0
        while todo:
            x = todo.pop()
            reach += 1
            todo += nodes[x].get("children", [])
        if reach != len(nodes):
            errs.append("only %d of %d nodes hang off the root" % (reach, len(nodes)))
    return errs


def _p11(l, b, k, regime, style):
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    f, r = corpus.mutate(_CHECK.exe, _CHECK.work, batch, "%s%d_%d" % (l, b, regime), regime)
    fi = corpus.finfo(r)
    if fi is None:
        return _rejected(l, b, regime, batch, r), {}, []
    nodes = fi["mutationTree"]
    files = {"input" + corpus.EXT[l]: batch.text, "info.json": json.dumps(r.info)}
    errs = tree_errors(nodes)
    if errs:
        return [("%s batch %d %s" % (l, b, REGIME[regime]), "\n".join(errs[:20]), files)], {}, []
    # ancestors of every group, by first id, in the tool's tree and in the specification's
    real, depth = {}, 0
    stack = [(0, ())]
    while stack:
        x, anc = stack.pop()
        here = tuple((jg.kind, jg.insts[0][1]) for jg in groups_of_node(nodes[x]) if jg.insts)
        for h in here:
            real[h] = frozenset(anc)
        depth = max(depth, len(anc))
        for c in nodes[x].get("children", []):
            stack.append((c, anc + here))
    ids = {}
    for i, g, first in batch.predicted_groups(regime):
        ids[(i, g.kind, g.path)] = (g.kind, first) if g.acts else None
    spec = {}

    def walk(t, anc):
        here = tuple(x for x in (ids[h] for h in t[0]) if x is not None)
        for h in here:
            spec[h] = frozenset(anc)
        for c in t[1]:
            walk(c, anc + here)
    walk(batch.predicted_tree(regime), ())
    viols = []
    if set(real) == set(spec):
        for h in spec:
            if real[h] != spec[h]:
                viols.append(("%s batch %d %s group %s" % (l, b, REGIME[regime], h),
                              "is nested inside %s, should be inside %s" % (sorted(real[h]), sorted(spec[h])), files))
                if len(viols) > 5:
                    break
    else:
        # the catalogue differs (another property): check nesting of extents only
        spans = {}
        for n in nodes:
            for jg in groups_of_node(n):
                if jg.insts:
                    spans[(jg.kind, jg.insts[0][1])] = jg.span
        for h, anc in real.items():
            for a in anc:
                if not (spans[a][0] <= spans[h][0] and spans[h][1] <= spans[a][1]):
                    viols.append(("%s batch %d %s" % (l, b, REGIME[regime]), "%s %s is inside %s %s" % (h, spans[h], a, spans[a]), files))
    s = [{"batch": b, "lang": l, "nodes": len(nodes), "groups": len(real), "deepest": depth}] if b < 2 else []
    return viols, {"traces_validated_against_impl": len(batch.progs), "tree_nodes": len(nodes), "groups_placed": len(real)}, s


def p11(check):
    _start(check)
    _run(check, _p11, [0])


# ---- P10: tracking and mutating agree -----------------------------------------------------

def _p10(l, b, k, regime, style):
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    name = "%s%d_%d" % (l, b, regime)
    res = []
    for sub in ("n", "t"):
        d = os.path.join(_CHECK.work, sub)
        os.makedirs(d, exist_ok=True)
        f, r = corpus.mutate(_CHECK.exe, d, batch, name, regime, track=sub == "t")
        res.append((f, r))
    (f1, r1), (f2, r2) = res
    files = {"input" + corpus.EXT[l]: batch.text, "mutating.json": json.dumps(r1.info), "tracking.json": json.dumps(r2.info)}
    key = "%s batch %d %s" % (l, b, REGIME[regime])
    if r1.rc != r2.rc:
        return [(key, "exit codes differ: mutating %s, tracking %s" % (r1.rc, r2.rc), files)], {}, []
    if r1.rc != 0:
        return _rejected(l, b, regime, batch, r1), {}, []
    a, c = corpus.finfo(r1), corpus.finfo(r2)
    viols = []
    if a is None or c is None:
        viols.append((key, "no mutation info", files))
    elif a["mutationTree"] != c["mutationTree"]:
        ga, gc = tool.file_groups(a), tool.file_groups(c)
        d = next(((x.kind, x.span, x.insts, y.kind, y.span, y.insts) for x, y in zip(ga, gc)
                  if (x.kind, x.span, x.insts) != (y.kind, y.span, y.insts)), "trees differ in shape")
        viols.append((key, "mutation info differs between the modes: %s" % (d,), files))
    return viols, {"traces_validated_against_impl": len(batch.progs), "trees_compared": 1}, []


def p10(check):
    _start(check)
    _run(check, _p10, [0])
