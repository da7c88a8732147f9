"""Checks on what mutated programs do, against the meaning given by the specification."""
import os

import corpus
import hazards
import refcache
import tool
from checks_info import REGIME, _rejected, _start
from execute import CompileError, DONE, FULL, Mutated, NIN, TIMEOUT, defined_mask, reference
from lang import Reference, edits_for

_CHECK = None
STATUS = {0: "not run", 1: "done", 2: "undefined", 3: "diverges", 4: "crashed", 5: "did not finish"}


def _prepare(check, **kw):
    global _CHECK
    _CHECK = check
    _start(check, **kw)
    from execute import headers_pch, prepare
    prepare(check.work)
    headers_pch(check.work)


def _gather(check, job, jobs):
    for viols, cnt, samples in corpus.pmap(job, jobs):
        for v in viols:
            check.violation(*v)
        for c, x in cnt.items():
            check.count(c, x)
        for s in samples:
            check.sample(s)


def compile_error(l, b, regime, batch, f, e):
    with open(f, "rb") as fh:
        mutated = fh.read()
    return [("%s batch %d %s" % (l, b, REGIME[regime]), "the mutated file does not compile:\n%s" % str(e)[:1500],
             {"input" + corpus.EXT[l]: batch.text, "mutated" + corpus.EXT[l]: mutated})]


def confirm(work, m, batch, i, edits, env, what, key, tag):
    """A digest disagrees: recompute the reference for this one program and report the first differing input"""
    p = batch.progs[i]
    row = reference(work, "cf" + tag, p.lang, [p], [[edits]])[0][0]
    mask = defined_mask(row)
    got = m.run([(env, i, mask)], sec=20)[0]
    for n in range(NIN):
        if mask >> n & 1 and got[n] != row[n]:
            src = Reference(p, edits).function("reference")
            return [(key, "%s\n%s\non input %d the mutated program (%s) %s with observations %x; expected %x" % (
                corpus.fn_text(batch, i), what, n, "nothing enabled" if env is None else "DREDD_ENABLED_MUTATION=%s" % env,
                STATUS[got[n][0]], got[n][1], row[n][1]), {"reference.txt": src, "input" + corpus.EXT[p.lang]: batch.text})]
    return []


def build(l, b, k, regime, style, track=False, tag="", flags=(), static=True):
    """-> (batch, Mutated or None, finfo, violations)"""
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    name = "%s%s%d_%d" % (tag, l, b, regime)
    f, r = corpus.mutate(_CHECK.exe, _CHECK.work, batch, name, regime, track=track)
    fi = corpus.finfo(r)
    if fi is None:
        return batch, None, None, _rejected(l, b, regime, batch, r)
    try:
        m = Mutated(_CHECK.work, "m" + name, batch, f, flags=flags, static=static)
    except CompileError as e:
        return batch, None, fi, compile_error(l, b, regime, batch, f, e)
    m.src = f
    return batch, m, fi, []


def discard(m):
    for x in (m.exe, m.src, m.src + ".json", os.path.join(m.work, m.name + ".o")):
        if os.path.exists(x):
            os.unlink(x)


# ---- P02: an enabled mutant does what its record says; P01: nothing enabled, nothing changes ----

def _mut(l, b, k, regime, style, inert, each):
    batch, m, fi, viols = build(l, b, k, regime, style)
    if m is None:
        return viols, {}, []
    table = [refcache.TABLE[l][j] for j in range(b, len(corpus.PROGS[l]), k)]
    pairs, extra, missing = corpus.match(batch, regime, fi)
    jobs, exp = [], []
    if inert:
        total = max([i for _, _, jg in pairs for _, i in jg.insts], default=0) + 1
        for i, p in enumerate(batch.progs):
            for env in (None, "", str(total + 64 * 3 + 5)):
                jobs.append((env, i, table[i][0][0]))
                exp.append((i, {}, table[i][0], "no mutant enabled", "%s %s inert" % (p.key, REGIME[regime])))
    if each:
        for i, g, jg in pairs:
            p = batch.progs[i]
            for a, mid in jg.insts:
                if a not in g.acts:
                    full = next((h.acts for h in p.groups[0] if (h.kind, h.path) == (g.kind, g.path)), [])
                    if a not in full:
                        viols.append(("%s %s %s %s records %s" % (p.key, REGIME[regime], g.kind, list(g.path), a),
                                      "%s\nmutant %d of %r is recorded as %s, which is not a change that can be made there (%s are)" % (
                                          corpus.fn_text(batch, i), mid, batch.snippet(i, g.path), a, full),
                                      {"input" + corpus.EXT[l]: batch.text}))
                        continue
                jobs.append((str(mid), i, None))
                exp.append((i, (g, a), None, "mutant %d: %s %s of %r" % (mid, g.kind, a, batch.snippet(i, g.path)),
                            "%s %s %s %s %s" % (p.key, REGIME[regime], g.kind, list(g.path), a)))
        index = [refcache.variants(p)[1] for p in batch.progs]
        for n, (env, i, mask) in enumerate(jobs):
            if mask is None:
                g, a = exp[n][1]
                v = index[i].get((g.kind, g.path, a))
                if v is None:
                    jobs[n] = (env, i, 0)
                    continue
                jobs[n] = (env, i, table[i][v][0])
                g = next(h for h in batch.progs[i].groups[0] if (h.kind, h.path) == (g.kind, g.path))
                exp[n] = (i, edits_for([(g, g.acts.index(a))]), table[i][v]) + exp[n][3:]
    out = m.run(jobs)
    samples = []
    runs = 0
    for (env, i, mask), (fi_, edits, want, what, key), row in zip(jobs, exp, out):
        if want is None:
            continue
        runs += bin(mask).count("1")
        if refcache.fold(row, mask) != want[1]:
            viols += confirm(_CHECK.work, m, batch, i, edits, env, what, key, "%s%d_%d" % (l, b, regime))
            if len(viols) > 20:
                break
        elif not samples and b == 1 and edits and mask:
            samples.append({"program": corpus.fn_text(batch, i), "what": what, "inputs with a defined result": bin(mask).count("1")})
    discard(m)
    return viols, {"traces_validated_against_impl": len(jobs), "executions_compared": runs,
                   "groups_not_in_catalogue": len(extra) + len(missing)}, samples


def p02(check):
    _prepare(check)
    refcache.load(check, fresh=check.tier == "thorough")
    styles = [0, 2, 1]
    jobs = [(l, b, k, r, styles[(b + r) % 3], False, True) for l, b, k in corpus.batches(120) for r in (0, 1)]
    jobs.sort(key=lambda j: (j[0] != "cpp", j[3]))
    _gather(check, _mut, jobs)
    check.assumptions = ["44 inputs per program; inputs on which the edited program is undefined or diverges are not compared",
                         "the reference meaning is compiled by the same compiler as the mutated program"]


def p01(check):
    hz = hazards.start(check)
    _prepare(check)
    refcache.load(check)
    styles = [0, 2, 1]
    jobs = [(l, b, k, r, styles[(b + r) % 3], True, False) for l, b, k in corpus.batches(120) for r in (0, 1)]
    jobs.sort(key=lambda j: (j[0] != "cpp", j[3]))
    _gather(check, _mut, jobs)
    hazards.judge(check, hz)
