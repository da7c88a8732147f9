"""P07: optimisation only drops mutants, and only redundant ones."""
import corpus
import refcache
import tlc
import tool
from checks_info import REGIME, _rejected, _start

_CHECK = None


def kept_kills(p, table, idx, keep):
    return [table[idx[k]][2] for k in keep if k in idx and table[idx[k]][2]]


def redundant(p, table, idx, d, keep):
    """on the inputs tried, d is never told from the original, or whatever kills some kept mutant kills d"""
    m, _, kill = table[idx[d]]
    if not kill:
        return True
    survives = m & table[0][0] & ~kill
    return any(not k & survives for k in kept_kills(p, table, idx, keep))


def _p07(l, b, k, style):
    batch = corpus.make(l, b, k, style, _CHECK.seed)
    real, viols = [], []
    for regime in (0, 1):
        f, r = corpus.mutate(_CHECK.exe, _CHECK.work, batch, "r%s%d_%d" % (l, b, regime), regime)
        fi = corpus.finfo(r)
        if fi is None:
            return _rejected(l, b, regime, batch, r), {}, []
        real.append({})
        for jg in tool.file_groups(fi):
            for a, _ in jg.insts:
                real[-1].setdefault((jg.kind, jg.span, a), 0)
                real[-1][(jg.kind, jg.span, a)] += 1
    full, opt = real
    files = {"input" + corpus.EXT[l]: batch.text}
    # which function and which place of the specification a recorded place is
    where = {}
    for i, p in enumerate(batch.progs):
        for g in p.groups[0]:
            where.setdefault((g.kind, batch.spans[i][g.path]), []).append((i, g))
    for x in sorted(opt):
        if opt[x] > full.get(x, 0):
            i = where.get(x[:2], [(0, None)])[0][0]
            viols.append(("%s optimised only: %s %s" % (batch.progs[i].key, x[0], x[2]),
                          "%s\n%s %s at %s is offered with optimisation but not without" % (corpus.fn_text(batch, i), x[0], x[2], x[1]), files))
    dropped = equal = subsumed = ruled = 0
    for i, p in enumerate(batch.progs):
        table = refcache.TABLE[l][b + k * i]
        idx = refcache.variants(p)[1]
        byrule = {(g.kind, g.path, a) for g in p.groups[0] for a in g.acts} - {(g.kind, g.path, a) for g in p.groups[1] for a in g.acts}
        keep, gone = [], []
        for g in p.groups[0]:
            span = batch.spans[i][g.path]
            twins = [h for j, h in where[(g.kind, span)] if j == i]
            for a in g.acts:
                x = (g.kind, span, a)
                missing = full.get(x, 0) - opt.get(x, 0)
                if missing <= 0:
                    keep.append((g.kind, g.path, a))
                elif missing >= sum(a in h.acts for h in twins):
                    gone.append((g.kind, g.path, a))
                # otherwise some of the places that share this extent keep it: the rules say which
                elif (g.kind, g.path, a) in byrule:
                    gone.append((g.kind, g.path, a))
                else:
                    keep.append((g.kind, g.path, a))
        for d in gone:
            dropped += 1
            if table[idx[d]][2] == 0:
                equal += 1
            elif redundant(p, table, idx, d, keep):
                subsumed += 1
            elif d in byrule:
                ruled += 1
            else:
                viols.append(("%s drops %s %s %s" % (p.key, d[0], list(d[1]), d[2]),
                              "%s\noptimisation drops the mutant %s %s of %r, which no redundancy rule covers; an input tells it from the original, and for every mutant that is kept some input kills that one and not this" % (
                                  corpus.fn_text(batch, i), d[0], d[2], batch.snippet(i, d[1])), files))
    samples = [] if b else [{"file": "%s batch %d" % (l, b), "dropped": dropped, "kept": sum(opt.values())}]
    return viols, {"traces_validated_against_impl": 2 * len(batch.progs), "dropped_mutants": dropped, "dropped_and_never_killed": equal,
                   "dropped_and_subsumed_by_one_kept_mutant": subsumed, "dropped_by_a_sufficient_set_rule": ruled}, samples


def p07(check):
    global _CHECK
    _CHECK = check
    n = 3 if check.tier == "thorough" else 2
    h = [tlc.launch(check.work, "Redundancy", {"LANG": '"%s"' % l, "LO": n, "HI": n}, ["EveryDropJustified"], workers=4, name="Red" + l)
         for l in ("c", "cpp")]
    _start(check)
    from execute import prepare
    prepare(check.work)
    refcache.load(check, fresh=check.tier == "thorough")
    styles = [0, 1]
    jobs = [(l, b, k, styles[b % 2]) for l, b, k in corpus.batches(120)]
    for viols, cnt, samples in corpus.pmap(_p07, jobs):
        for v in viols:
            check.violation(*v)
        for c, x in cnt.items():
            check.count(c, x)
        for s in samples:
            check.sample(s)
    for x in h:
        check.model(tlc.collect(x))
    check.assumptions = ["killing is judged on 44 inputs per program for the real tool's choices and on all inputs of a small range in the specification",
                         "drops that rest on a sufficient set of mutants are those listed in Redundancy.tla (Heuristic) and Catalogue.tla"]
