"""Which mutants a selection list enables: replays of the behaviours of spec/Selection.tla."""
import os
import random

import corpus
import tlc
import tool
from batch import Batch
from checks_info import REGIME
from execute import CompileError, Mutated, NIN, defined_mask, prepare, reference
from lang import Program, Reference, edits_for
from refcache import fold

_CHECK = None
WORLD = {}     # (lang, opt) -> World


class World:
    """mutated files linked into one program, and the identifiers of their mutants"""

    def __init__(self, check, lang, opt, files, tag="w", track=False):
        self.lang, self.opt, self.tag, self.track = lang, opt, tag, track
        self.batches = [Batch(lang, [p if isinstance(p, Program) else Program(p) for p in ps], 0, 0, prefix="w%d_" % f) for f, ps in enumerate(files)]
        ext = corpus.EXT[lang]
        self.srcs = [os.path.join(check.work, "%s%s%d_%d%s" % (tag, lang, opt, f, ext)) for f in range(len(files))]
        for s, b in zip(self.srcs, self.batches):
            with open(s, "w") as o:
                o.write(b.text)
        info = os.path.join(check.work, "%s%s%d.json" % (tag, lang, opt))
        self.run = tool.dredd(check.exe, self.srcs, info, opt=bool(opt), track=track)
        self.progs = [p for b in self.batches for p in b.progs]
        self.where = {}     # id -> (function, group, action index) according to the specification
        first = 0
        fn = 0
        for b in self.batches:
            for i, g, g0 in b.predicted_groups(opt, first):
                for k in range(len(g.acts)):
                    self.where[g0 + k] = (fn + i, g, k)
            first += b.total(opt)
            fn += len(b.progs)
        self.total = first
        # the same, according to the records of the tool
        self.recorded = {}
        fn = 0
        infos = (self.run.info or {}).get("infoForFiles", [])
        for b, fi in zip(self.batches, infos):
            pairs, extra, missing = corpus.match(b, opt, fi)
            for i, g, jg in pairs:
                for a, x in jg.insts:
                    if a in g.acts:
                        self.recorded[x] = (fn + i, g, g.acts.index(a))
            fn += len(b.progs)

    def build(self, check, **kw):
        self.m = Mutated.linked(check.work, "%s%s%d" % (self.tag, self.lang, self.opt), self.lang, list(zip(self.batches, self.srcs)), **kw)

    def locate(self, fn):
        for b in self.batches:
            if fn < len(b.progs):
                return b, fn
            fn -= len(b.progs)

    def choices(self, fn, ids):
        """the ways in which function fn may behave when ids are enabled: one mutant per place"""
        by = {}
        for x in ids:
            f, g, k = self.recorded[x]
            if f == fn:
                by.setdefault((g.kind, g.path), []).append((g, k))
        out = [[]]
        for opts in by.values():
            out = [c + [o] for c in out for o in opts]
        return out


def _eval(lang, opt, lo, todo):
    """reference results for [(function, tuple of (group index, action))]"""
    w = WORLD[(lang, opt)]
    fns = sorted({t[0] for t in todo})
    per = {f: [t for t in todo if t[0] == f] for f in fns}
    variants = [[edits_for([(w.progs[f].groups[opt][g], k) for g, k in t[1]]) for t in per[f]] for f in fns]
    res = reference(_CHECK.work, "sel_%s%d_%d" % (lang, opt, lo), lang, [w.progs[f] for f in fns], variants)
    return [(t, row) for f, rows in zip(fns, res) for t, row in zip(per[f], rows)]


def code(w, fn, choice):
    gi = {(g.kind, g.path): n for n, g in enumerate(w.progs[fn].groups[w.opt])}
    return (fn, tuple(sorted((gi[(g.kind, g.path)], k) for g, k in choice)))


def _run(lang, opt, lo, jobs):
    w = WORLD[(lang, opt)]
    m = w.m
    old = m.name
    m.name = "%s-%d" % (old, lo)
    out = m.run(jobs)
    m.name = old
    return out


def compare(check, w, lists):
    """lists: [(text of the list, ids that should be enabled)]"""
    nf = len(w.progs)
    want, need = [], set()
    for text, ids in lists:
        ids = [x for x in ids if x in w.recorded]
        fns = {w.recorded[x][0] for x in ids}
        fns.add((hash(text) if False else len(text) * 7 + len(ids)) % nf)   # and one that should be unaffected
        for fn in sorted(fns):
            cs = [code(w, fn, c) for c in w.choices(fn, ids)]
            need.update(cs)
            want.append((text, fn, cs))
    need = sorted(need)
    ref = {}
    size = max(1, (len(need) + 15) // 16)
    for part in corpus.pmap(_eval, [(w.lang, w.opt, lo, need[lo:lo + size]) for lo in range(0, len(need), size)]):
        ref.update(dict(part))
    jobs = []
    for text, fn, cs in want:
        mask = (1 << NIN) - 1
        for c in cs:
            mask &= defined_mask(ref[c])
        jobs.append((text, fn, mask))
    size = max(1, (len(jobs) + 15) // 16)
    outs = []
    for part in corpus.pmap(_run, [(w.lang, w.opt, lo, jobs[lo:lo + size]) for lo in range(0, len(jobs), size)]):
        outs += part
    for (text, fn, cs), (_, _, mask), row in zip(want, jobs, outs):
        check.validated()
        check.count("executions_compared", bin(mask).count("1"))
        if not any(all(row[n] == ref[c][n] for n in range(NIN) if mask >> n & 1) for c in cs):
            p = w.progs[fn]
            b, i = w.locate(fn)
            n = next(n for n in range(NIN) if mask >> n & 1 and all(row[n] != ref[c][n] for c in cs[:1]))
            want_ = "; ".join("%s %s at %s" % (p.groups[w.opt][g].kind, p.groups[w.opt][g].acts[k], b.snippet(i, p.groups[w.opt][g].path)) for g, k in cs[0][1]) or "nothing"
            check.violation("%s %s DREDD_ENABLED_MUTATION=%s function %s" % (w.lang, REGIME[w.opt], text[:80], p.tag),
                            "%s\nwith DREDD_ENABLED_MUTATION=%s this function should have enabled: %s\nbut on input %d it does something else" % (
                                corpus.fn_text(b, i), text, want_, n), {"input" + corpus.EXT[w.lang]: b.text})
        elif cs and len(cs[0][1]) >= 2:
            check.sample({"list": text, "function": corpus.fn_text(w.batches[0], fn) if fn < len(w.batches[0].progs) else w.progs[fn].tag,
                          "mutants active together": len(cs[0][1])})


def setup(check, inv, maxlen, langs=("c", "cpp"), opts=(0, 1)):
    global _CHECK
    _CHECK = check
    check.start_build()
    hs = {(l, o): tlc.launch(check.work, "Selection", {"LANG": '"%s"' % l, "MAXLEN": maxlen, "EMIT": "TRUE", "OPT": "TRUE" if o else "FALSE"},
                             inv, workers=2, name="Sel%s%d" % (l, o)) for l in langs for o in opts}
    prepare(check.work)
    check.exe
    ems = {}
    for (l, o), h in hs.items():
        r = tlc.collect(h)
        check.model(r)
        files = next(e[1] for e in r.emitted if e[0] == "files")
        ems[(l, o)] = [e for e in r.emitted if e[0] != "files"]
        w = WORLD[(l, o)] = World(check, l, o, files)
        if w.run.rc != 0 or sorted(w.recorded) != list(range(w.total)):
            x = sorted(w.recorded)
            check.violation("%s %s records" % (l, REGIME[o]), "two files, %d mutants expected with ids 0..%d; the records match the specification for %d ids\nexit %d\n%s" % (
                w.total, w.total - 1, len(x), w.run.rc, w.run.out[-1500:]), {"a" + corpus.EXT[l]: w.batches[0].text, "b" + corpus.EXT[l]: w.batches[1].text})
    return ems


def spell(items, rng):
    return ",".join("" if x == -1 else str(x) for x in items)


def p03(check):
    ems = setup(check, ["EnabledIsListed", "SetSemantics"], 3 if check.tier == "thorough" else 2)
    rng = random.Random(check.seed)
    for (l, o), w in sorted(WORLD.items()):
        try:
            w.build(check)
        except CompileError as e:
            check.violation("%s %s link" % (l, REGIME[o]), "two mutated files do not compile and link into a program:\n%s" % str(e)[:1500])
            continue
        lists = []
        first = [0, w.batches[0].total(o)]
        for items, enabled in sorted(ems[(l, o)]):
            ids = sorted({v + first[f] for f in (0, 1) for v in enabled[f]})
            lists.append((spell(items, rng), ids))
        if check.tier != "thorough":
            lists += [(spell(i, rng), sorted({x for x in i if 0 <= x < w.total}))
                      for i in ([rng.choice([-1, 0, 1, 63, 64, 65, 127, 128, first[1] - 1, first[1], first[1] + 63, first[1] + 64, w.total - 1, w.total, 99999])
                                 for _ in range(rng.choice([3, 4, 5]))] for _ in range(150))]
        # every mutant on its own, every adjacent pair
        for x in range(0, w.total, 1 if check.tier == "thorough" else 3):
            lists.append((str(x), [x]))
        for x in range(check.seed % 3, w.total - 1, 1 if check.tier == "thorough" else 3):
            lists.append(("%d,%d" % (x + 1, x), [x, x + 1]))
        # long lists, one mutant per place at most, anywhere in the two files
        groups = {}
        for x, (f, g, k) in w.recorded.items():
            groups.setdefault((f, g.kind, g.path), []).append(x)
        places = sorted(groups)
        for n in range(400 if check.tier == "thorough" else 60):
            ps = rng.sample(places, min(len(places), rng.choice([2, 3, 4, 6, 10, 25])))
            ids = [rng.choice(groups[p]) for p in ps]
            items = ids + [rng.choice(ids) for _ in range(rng.randrange(3))] + [-1] * rng.randrange(2) + [w.total + rng.randrange(500)] * rng.randrange(2)
            rng.shuffle(items)
            lists.append((spell(items, rng), sorted(ids)))
        compare(check, w, lists)
        check.count("selection_lists", len(lists))
    check.assumptions = ["list items are decimal numbers without spaces, or empty"]
