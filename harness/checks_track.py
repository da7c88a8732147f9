"""Checks on tracking mode: what it records, that it disturbs nothing, and how it relates to mutants."""
import os

import checks_runtime
import corpus
import hazards
import refcache
from checks_exec import STATUS, _gather, _prepare, build, confirm, discard
import checks_exec
from checks_info import REGIME
from checks_select import World
from execute import CompileError, CRASH, DONE, FULL, NIN, reference

REACH = {}      # lang -> per program, per input: [(status, sites begun, sites completed)] in full and for deaths 1, 2, ...
DEATHS = 3


def _reach(work, lang, lo, hi):
    ps = corpus.PROGS[lang][lo:hi]
    maps = [{(g.path, g.kind): k for k, g in enumerate(p.groups[0])} for p in ps]
    return reference(work, "rch_%s_%d" % (lang, lo), lang, ps, [[{}]] * len(ps), reach=maps, deaths=DEATHS)


def load_reach(check):
    jobs = [(check.work, l, lo, min(lo + 120, len(corpus.PROGS[l]))) for l in corpus.PROGS for lo in range(0, len(corpus.PROGS[l]), 120)]
    for l in corpus.PROGS:
        REACH[l] = []
    for j, r in zip(jobs, corpus.pmap(_reach, jobs)):
        REACH[j[1]] += r


def classes(rows):
    """the inputs on which the program is defined, by the set of sites they reach: [(mask, set)]"""
    d = {}
    for n, runs in enumerate(rows):
        st, s, _ = runs[0]
        if st == DONE:
            d[s] = d.get(s, 0) | 1 << n
    return sorted(((m, s) for s, m in d.items()), key=lambda x: x[0])


def site_ids(p, pairs_of):
    """index in groups[0] -> ids the tool gave the group (empty when the regime dropped them all)"""
    return [pairs_of.get((g.kind, g.path), []) for g in p.groups[0]]


def low(mask):
    return mask & -mask


# ---- P09 ----

def _p09(l, b, k, regime, style):
    batch, m, fi, viols = build(l, b, k, regime, style, track=True, tag="t")
    if m is None:
        return viols, {}, []
    pairs, extra, missing = corpus.match(batch, regime, fi)
    ids = [{} for _ in batch.progs]
    for i, g, jg in pairs:
        ids[i][(g.kind, g.path)] = [x for _, x in jg.insts]
    jobs, exp = [], []
    for i, p in enumerate(batch.progs):
        rows = REACH[l][b + i * k]
        sites = site_ids(p, ids[i])
        cl = classes(rows)
        for mask, s in cl:
            jobs.append((i, low(mask), 1 + i % 2, 0))
            exp.append((s, s))
            # the same input, killed at an observable event: what was reached by completed full expressions must be
            # there; what the expression under evaluation reached may be
            for d, (st, begun, completed) in enumerate(rows[low(mask).bit_length() - 1][1:]):
                jobs.append((i, low(mask), 1, d + 1))
                exp.append((completed, s))
        if len(cl) > 1:   # several inputs in one process: the union, each id once
            u = 0
            for mask, s in cl:
                u |= low(mask) | (mask & ~low(mask) & -(mask & ~low(mask)))
            jobs.append((i, u, 1, 0))
            exp.append((frozenset().union(*(s for _, s in cl)),) * 2)
    out = m.track(jobs)
    samples = []
    for (i, mask, rep, death), (must, may), (st, h, got) in zip(jobs, exp, out):
        p = batch.progs[i]
        want = sorted(x for c in must for x in site_ids(p, ids[i])[c])
        most = sorted(x for c in may for x in site_ids(p, ids[i])[c])
        key = "%s %s inputs %x" % (p.key, REGIME[regime], mask) + (" killed at event %d" % death if death else "")
        where = corpus.fn_text(batch, i)
        if st != (CRASH if death else DONE):
            viols.append((key, "%s\nthe tracking program did not finish (%s)" % (where, STATUS[st]), {"input" + corpus.EXT[l]: batch.text}))
        elif len(set(got)) != len(got):
            viols.append((key, "%s\nids recorded more than once: %s" % (where, sorted(got)), {"input" + corpus.EXT[l]: batch.text}))
        elif not set(want) <= set(got) <= set(most):
            viols.append((key, "%s\nrecorded %s; reached %s%s" % (where, sorted(got), want, " (and possibly %s)" % most if most != want else ""), {"input" + corpus.EXT[l]: batch.text}))
        elif not samples and b == 1 and len(want) > 3:
            samples.append({"program": where, "inputs": hex(mask), "recorded": want})
        if len(viols) > 20:
            break
    discard(m)
    return viols, {"traces_validated_against_impl": len(jobs)}, samples


def several(l, regime, n, files=3, **kw):
    """a program of several tracked files, of every n-th program of the corpus -> (World, indices in the corpus, violations)"""
    idx = list(range((n // 2) % n, len(corpus.PROGS[l]), n))
    parts = [idx[f::files] for f in range(files)]
    w = World(checks_exec._CHECK, l, regime, [[corpus.PROGS[l][j] for j in part] for part in parts], tag="mf", track=True)
    key = "%s %s %d files" % (l, REGIME[regime], files)
    texts = {"input%d%s" % (f, corpus.EXT[l]): b.text for f, b in enumerate(w.batches)}
    if w.run.rc != 0 or sorted(w.recorded) != list(range(w.total)):
        return None, idx, [(key + " records", "the records of %d files do not have the %d mutants the specification has\nexit %d\n%s" % (
            files, w.total, w.run.rc, w.run.out[-1500:]), texts)]
    try:
        w.build(checks_exec._CHECK, **kw)
    except CompileError as e:
        return None, idx, [(key + " link", "the tracked files do not compile and link:\n%s" % str(e)[:1500], texts)]
    return w, [j for part in parts for j in part], []


def _p09_several(l, regime, n):
    w, idx, viols = several(l, regime, n)
    if w is None:
        return viols, {}, []
    by = {}
    for x, (fn, g, k) in w.recorded.items():
        by.setdefault((fn, g.kind, g.path), []).append(x)
    jobs, exp = [], []
    for fn, j in enumerate(idx):
        for mask, s in classes(REACH[l][j]):
            jobs.append((fn, low(mask), 1, 0))
            exp.append(s)
    for (fn, mask, _, _), s, (st, h, got) in zip(jobs, exp, w.m.track(jobs)):
        p = w.progs[fn]
        want = sorted(x for c in s for x in by.get((fn, p.groups[0][c].kind, p.groups[0][c].path), []))
        if st != DONE or sorted(got) != want:
            b, i = w.locate(fn)
            viols.append(("%s %s one of several files, inputs %x" % (p.key, REGIME[regime], mask),
                          "%s\nin a program of %d files, mutants %d..: %s; recorded %s; reached %s" % (
                              corpus.fn_text(b, i), len(w.batches), sum(x.total(regime) for x in w.batches[:w.batches.index(b)]), STATUS[st], sorted(got), want),
                          {"input%d%s" % (f, corpus.EXT[l]): x.text for f, x in enumerate(w.batches)}))
            if len(viols) > 20:
                break
    return viols, {"traces_validated_against_impl": len(jobs)}, []


def p09(check):
    _prepare(check)
    load_reach(check)
    hs = checks_runtime.tracking_models(check)
    _gather(check, _p09_several, [(l, r, 9) for l in ("cpp", "c") for r in (0, 1)])
    checks_runtime.tracking(check, hs, behaviour=False)
    styles = [1, 0, 2]
    jobs = [(l, b, k, r, styles[(b + r) % 3]) for l, b, k in corpus.batches(120) for r in (0, 1)]
    jobs.sort(key=lambda j: (j[0] != "cpp", j[3]))
    _gather(check, _p09, jobs)


# ---- P08 ----

def _p08(l, b, k, regime, style):
    batch, m, fi, viols = build(l, b, k, regime, style, track=True, tag="t")
    if m is None:
        return viols, {}, []
    table = [refcache.TABLE[l][j] for j in range(b, len(corpus.PROGS[l]), k)]
    trk = os.path.join(m.work, m.name + ".trk")
    base = {e: v for e, v in os.environ.items() if not e.startswith("DREDD_")}
    total = batch.total(regime)
    ro = os.path.join(m.work, "no-such-directory", "x")
    n = runs = 0
    for what, env, sel in (("no tracking file named", base, None),
                           ("tracking to a file", dict(base, DREDD_MUTANT_TRACKING_FILE=trk), None),
                           ("tracking file that cannot be created", dict(base, DREDD_MUTANT_TRACKING_FILE=ro), None),
                           ("tracking to a file, mutants selected", dict(base, DREDD_MUTANT_TRACKING_FILE=trk),
                            ",".join(map(str, range(0, total, 3))))):
        jobs = [(sel, i, table[i][0][0]) for i in range(len(batch.progs))]
        out = m.run(jobs, env=env)
        for (e, i, mask), row in zip(jobs, out):
            runs += bin(mask).count("1")
            n += 1
            if refcache.fold(row, mask) != table[i][0][1]:
                bad = [x for x in range(NIN) if mask >> x & 1 and row[x][0] != DONE]
                viols.append(("%s %s %s" % (batch.progs[i].key, REGIME[regime], what),
                              "%s\n%s: behaves differently from the original%s" % (
                                  corpus.fn_text(batch, i), what,
                                  " (input %d: %s)" % (bad[0], STATUS[row[bad[0]][0]]) if bad else ""),
                              {"input" + corpus.EXT[l]: batch.text}))
                if len(viols) > 20:
                    break
    if os.path.exists(trk):
        os.unlink(trk)
    discard(m)
    return viols, {"traces_validated_against_impl": n, "executions_compared": runs}, []


def _p08_several(l, regime, n):
    w, idx, viols = several(l, regime, n, static=False, flags=["-fsanitize=address,bounds", "-fno-sanitize-recover=all"])
    if w is None:
        return viols, {}, []
    trk = os.path.join(checks_exec._CHECK.work, w.m.name + ".trk")
    env = {e: v for e, v in os.environ.items() if not e.startswith("DREDD_")}
    env["ASAN_OPTIONS"] = "detect_leaks=0"
    env["DREDD_MUTANT_TRACKING_FILE"] = trk
    jobs = [(None, fn, refcache.TABLE[l][j][0][0]) for fn, j in enumerate(idx)]
    for (_, fn, mask), j, row in zip(jobs, idx, w.m.run(jobs, sec=10, env=env)):
        if refcache.fold(row, mask) != refcache.TABLE[l][j][0][1]:
            b, i = w.locate(fn)
            bad = [x for x in range(NIN) if mask >> x & 1 and row[x][0] != DONE]
            viols.append(("%s %s one of several files" % (w.progs[fn].key, REGIME[regime]),
                          "%s\ntracking in a program of %d files: behaves differently from the original%s" % (
                              corpus.fn_text(b, i), len(w.batches), " (input %d: %s)" % (bad[0], STATUS[row[bad[0]][0]]) if bad else ""),
                          {"input%d%s" % (f, corpus.EXT[l]): x.text for f, x in enumerate(w.batches)}))
            if len(viols) > 20:
                break
    if os.path.exists(trk):
        os.unlink(trk)
    return viols, {"traces_validated_against_impl": len(jobs), "executions_compared": sum(bin(m).count("1") for _, _, m in jobs)}, []


def p08(check):
    hz = hazards.start(check)
    _prepare(check)
    refcache.load(check)
    hs = checks_runtime.tracking_models(check)
    _gather(check, _p08_several, [(l, r, 9) for l in ("cpp", "c") for r in (0, 1)])
    checks_runtime.tracking(check, hs, behaviour=True)
    styles = [1, 0, 2]
    jobs = [(l, b, k, r, styles[(b + r) % 3]) for l, b, k in corpus.batches(120) for r in (0, 1)]
    jobs.sort(key=lambda j: (j[0] != "cpp", j[3]))
    _gather(check, _p08, jobs)
    hazards.judge(check, hz, track=True)


# ---- P19 ----

def _p19(l, b, k, regime, style, deep):
    batch, t, fi, viols = build(l, b, k, regime, style, track=True, tag="t")
    if t is None:
        return viols, {}, []
    batch, m, fi2, viols = build(l, b, k, regime, style, tag="m")
    if m is None:
        return viols, {}, []
    table = [refcache.TABLE[l][j] for j in range(b, len(corpus.PROGS[l]), k)]
    allids = sorted(x for g in __import__("tool").file_groups(fi2) for _, x in g.insts)
    tj = []
    for i, p in enumerate(batch.progs):
        mask = table[i][0][0]
        picks = [n for n in range(NIN) if mask >> n & 1]
        if not deep and len(picks) > 16:
            picks = picks[::(len(picks) + 15) // 16]
        tj += [(i, 1 << n, 1, 0) for n in picks]
    rec = t.track(tj)
    by = {}
    for (i, mk, _, _), (st, h, got) in zip(tj, rec):
        by.setdefault((i, frozenset(got)), [0])[0] |= mk
    # ids belonging to each program, as the tool numbers them
    pairs, extra, missing = corpus.match(batch, regime, fi2)
    own = [set() for _ in batch.progs]
    for i, g, jg in pairs:
        own[i].update(x for _, x in jg.insts)
    jobs, why = [], []
    for (i, got), (mk,) in sorted(by.items(), key=lambda kv: (kv[0][0], sorted(kv[0][1]))):
        rest = [x for x in allids if x not in got]
        jobs.append((",".join(map(str, rest)), i, mk))
        why.append(rest)
        mine = sorted(own[i] - got)
        for x in mine if deep else mine[:12]:
            jobs.append((str(x), i, low(mk)))
            why.append([x])
    out = m.run(jobs)
    # the original's behaviour on the same inputs
    base = m.run([(None, i, table[i][0][0]) for i in range(len(batch.progs))])
    for (env, i, mk), sel, row in zip(jobs, why, out):
        for n in range(NIN):
            if mk >> n & 1 and row[n] != base[i][n]:
                p = batch.progs[i]
                viols.append(("%s %s input %d unrecorded %s" % (p.key, REGIME[regime], n, sel if len(sel) == 1 else "all"),
                              "%s\non input %d tracking does not record %s, yet selecting %s changes what the program does" % (
                                  corpus.fn_text(batch, i), n, sel if len(sel) == 1 else "%d mutants" % len(sel), "it" if len(sel) == 1 else "them"),
                              {"input" + corpus.EXT[l]: batch.text}))
                break
        if len(viols) > 20:
            break
    discard(m)
    discard(t)
    return viols, {"traces_validated_against_impl": len(jobs), "tracking_runs": len(tj)}, []


def p19(check):
    _prepare(check)
    refcache.load(check)
    styles = [1, 0, 2]
    regimes = (0, 1)
    jobs = [(l, b, k, r, styles[(b + r) % 3], check.tier == "thorough") for l, b, k in corpus.batches(120) for r in regimes]
    jobs.sort(key=lambda j: (j[0] != "cpp", j[3]))
    _gather(check, _p19, jobs)
