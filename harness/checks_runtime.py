"""What the run-time halves do under threads, processes and crashes: replays of spec/Runtime.tla and spec/Tracking.tla."""
import os

import corpus
import tlc
import tool
from checks_info import REGIME
from checks_select import World
from execute import CompileError, DONE, NIN, prepare, reference
from lang import Program, edits_for

INPUT = 29      # (2, 5)
W = {}          # name -> World


def _replay(name, lo, lines):
    return W[name].m.replay(lines, "-%d" % lo)


def replay(name, lines, procs=16):
    size = max(1, (len(lines) + procs - 1) // procs)
    out = []
    for part in corpus.pmap(_replay, [(name, lo, lines[lo:lo + size]) for lo in range(0, len(lines), size)]):
        out += part
    return out


def files(programs, large):
    """the two files of a program: many functions when large (more mutants than any test has in one file)"""
    ps = programs
    n = 110 if large else 1
    return [ps * n, (ps[3:] + ps[:3]) * (n // 2 + 1)]


def world(check, name, lang, opt, programs, large, track=False, **kw):
    """-> World or None after reporting"""
    w = W[name] = World(check, lang, opt, files(programs, large), tag=name, track=track)
    if w.run.rc != 0 or sorted(w.recorded) != list(range(w.total)):
        check.violation("%s %s records" % (name, REGIME[opt]),
                        "two files, %d mutants expected with ids 0..%d; the records match the specification for %d ids\nexit %d\n%s" % (
                            w.total, w.total - 1, len(w.recorded), w.run.rc, w.run.out[-1500:]),
                        {"a" + corpus.EXT[lang]: w.batches[0].text, "b" + corpus.EXT[lang]: w.batches[1].text})
        return None
    try:
        w.build(check, static=False, driver="sched", **kw)
    except CompileError as e:
        check.violation("%s %s link" % (name, REGIME[opt]), "two mutated files do not compile and link into a program:\n%s" % str(e)[:1500])
        return None
    return w


def launch(check, module, name, inv, props=(), **consts):
    c = {k: ("TRUE" if v else "FALSE") if isinstance(v, bool) else str(v) for k, v in consts.items()}
    c["EMIT"] = "TRUE"
    return tlc.launch(check.work, module, c, inv, props, workers=2, name=name)


def gather(check, h):
    """-> (programs, histories)"""
    r = tlc.collect(h)
    check.model(r)
    return [e[1] for e in r.emitted if e[0] == "programs"][0], sorted(e for e in r.emitted if e[0] != "programs")


def arms(check, w, pick):
    """for each function (f, k): (function number, id of a mutant that matters, digest without, digest with)"""
    fns = sorted(set(pick.values()))
    vs = {}
    for fn in fns:
        p = w.progs[fn]
        vs[fn] = [(g, k) for g in p.groups[w.opt] for k in range(len(g.acts))]
    res = reference(check.work, "arm" + w.tag, w.lang, [w.progs[f] for f in fns], [[{}] + [edits_for([v]) for v in vs[f]] for f in fns])
    out = {}
    ids = {}
    for x, (fn, g, k) in w.recorded.items():
        ids[(fn, g.kind, g.path, k)] = x
    for key, fn in pick.items():
        rows = res[fns.index(fn)]
        base = rows[0][INPUT]
        good = [(ids[(fn, g.kind, g.path, k)], row[INPUT]) for (g, k), row in zip(vs[fn], rows[1:]) if row[INPUT][0] == DONE and row[INPUT] != base]
        x, r = good[-1] if key[1] == 2 else good[0]
        out[key] = (fn, x, base[1], r[1])
    return out


def describe(hist):
    return " ".join("%s%d%s" % (e[0], e[1], "(%d.%d)" % tuple(e[2]) if e[0] == "B" else "") for e in hist)


# ---- P05 ----

def p05(check):
    check.start_build()
    deep = check.tier == "thorough"
    inv = ["Agreement", "Knowledge"]
    hs = {}
    for l in ("c", "cpp"):
        hs[l] = [launch(check, "Runtime", "R2" + l, inv, LANG='"%s"' % l, THREADS=2, MAXEV=6 if deep else 5, SWITCHES=9, FINE=False, SHARED=False, EXITS=True)]
        if l == "c":
            hs[l].append(launch(check, "Runtime", "RF" + l, [], LANG='"%s"' % l, THREADS=2, MAXEV=20, SWITCHES=3, FINE=True, SHARED=True, EXITS=False))
        hs[l].append(launch(check, "Runtime", "R3" + l, inv, LANG='"%s"' % l, THREADS=3, MAXEV=6 if deep else 5, SWITCHES=5, FINE=False, SHARED=False, EXITS=False))
    prepare(check.work, "sched")
    check.exe
    got = {l: [gather(check, h) for h in hs[l]] for l in hs}
    for l in ("c", "cpp"):
        progs = got[l][0][0]
        for large in (False, True):
            opt = 0 if large else 1
            name = "rt%s%d" % (l, large)
            w = world(check, name, l, opt, progs, large)
            if w is None:
                continue
            n0, n1 = len(w.batches[0].progs), len(w.batches[1].progs)
            pick = {(1, 1): 0, (1, 2): n0 - 1, (2, 1): n0, (2, 2): n0 + n1 - 1}
            arm = arms(check, w, pick)
            lines, meta = [], []
            for q, (_, hists) in enumerate(got[l]):
                fine = l == "c" and q == 1
                for lst, hist, answers in hists:
                    sel = ",".join(str(arm[tuple(x)][1]) for x in lst)
                    ev = ["B:%d:%d" % (e[1], arm[tuple(e[2])][0]) if e[0] == "B" else "%s:%d" % (e[0], e[1]) for e in hist]
                    lines.append("%d %d %s - %s" % (fine, INPUT, sel or "-%"[len(hist[0][2]) % 2 and large], " ".join(ev)))
                    meta.append((fine, lst, hist))
            for line, (fine, lst, hist), (bad, evs) in zip(lines, meta, replay(name, lines)):
                check.validated()
                key = "%s list %s: %s" % (l, " ".join("%d.%d" % tuple(x) for x in lst) or "empty", describe(hist))
                wrong = None
                for e, (done, dg) in zip(hist, evs):
                    if e[0] != "B":
                        continue
                    fn, x, orig, mut = arm[tuple(e[2])]
                    if done != 1:
                        wrong = "thread %d never finished function %s" % (e[1], e[2])
                    elif dg != (mut if e[2] in lst else orig):
                        wrong = "thread %d ran function %d of file %d %s" % (
                            e[1], e[2][1], e[2][0], "as the original although its mutant %d is enabled" % x if dg == orig and e[2] in lst else
                            "with the mutant %d, which is not enabled" % x if dg == mut else "in a way that is neither the original nor the mutant")
                    if wrong:
                        break
                if bad and not wrong:
                    wrong = "the process did not end normally"
                if wrong:
                    check.violation(key, "%s program, %s file sizes, DREDD_ENABLED_MUTATION=%s\nschedule (B: a thread begins a function, S: a suspended thread goes on, X: a thread ends): %s\n%s" % (
                        l, "large" if large else "small", line.split()[2], describe(hist), wrong),
                        {"a" + corpus.EXT[l]: w.batches[0].text, "b" + corpus.EXT[l]: w.batches[1].text})
            check.count("schedules_%s" % name, len(lines))
            check.sample({"schedule": describe(meta[len(meta) // 2][2]), "selection": lines[len(meta) // 2].split()[2], "files": "large" if large else "small"})
            if l == "cpp":
                free(check, w, arm, name)
    check.assumptions = ["suspension points are where the run-time code reads the environment (and, in C, takes the next item)",
                         "the environment does not change while the program runs"]


def free(check, w, arm, name):
    """threads that run everything at the same time"""
    n = len(w.progs)
    ids = sorted(x for _, x, _, _ in arm.values())
    lines = ["0 %d %s - F:%d:%d" % (INPUT, ",".join(map(str, ids)), k, n) for k in (1, 8, 8, 8)]
    out = w.m.replay(lines)
    want = out[0][1][0][1]
    for line, (bad, evs) in zip(lines, out):
        check.validated()
        if bad or evs[0] != (1, want):
            check.violation("%s free running threads" % name, "8 threads running all functions with %s enabled do not all behave as one thread does" % ids)


# ---- tracking (P08, P09) ----

def tracking_models(check):
    deep = check.tier == "thorough"
    inv = ["AtMostOnce", "OnlyReached", "AllReached", "CrashSafe"]
    hs = {}
    for l in ("c", "cpp"):
        common = dict(LANG='"%s"' % l, OPT=True)
        hs[l] = [launch(check, "Tracking", "T1" + l, inv, ["AppendOnly"], PROCS=1, THREADS=2, MAXEV=8 if deep else 7, SWITCHES=9, FINE=False, KILLS=False, **common),
                 launch(check, "Tracking", "T2" + l, inv, ["AppendOnly"], PROCS=2, THREADS=2, MAXEV=6, SWITCHES=6 if deep else 4, FINE=False, KILLS=True, **common),
                 launch(check, "Tracking", "T3" + l, inv, ["AppendOnly"], PROCS=2, THREADS=1, MAXEV=11 if deep else 10, SWITCHES=3, FINE=True, KILLS=True, **common),
                 launch(check, "Tracking", "T4" + l, inv, ["AppendOnly"], PROCS=1, THREADS=2, MAXEV=11 if deep else 10, SWITCHES=4, FINE=True, KILLS=False, **common)]
    return hs


def show(hist):
    return " ".join("%s%d%s" % (e[0], e[1], ".%d" % e[2] if e[0] != "K" else "") + ("(%d.%d)" % tuple(e[3]) if e[0] == "B" else "") for e in hist)


def tracking(check, hs, behaviour):
    """replay the histories of spec/Tracking.tla; judge what the functions return (behaviour) or what the file holds"""
    prepare(check.work, "sched")
    for l in ("c", "cpp"):
        got = [gather(check, h) for h in hs[l]]
        progs = got[0][0]
        for large in (False, True):
            opt = 0 if large else 1
            name = "tr%s%d" % (l, large)
            w = world(check, name, l, opt, progs, large, track=True)
            if w is None:
                continue
            n0 = len(w.batches[0].progs)
            tags = [p.tag for p in w.progs]
            last = lambda tag, lo, hi: max(i for i in range(lo, hi) if tags[i] == tag)
            pick = {(1, 1): tags.index("one"), (1, 2): last("leaf", 0, n0), (2, 1): tags.index("one", n0), (2, 2): last("leaf", n0, len(tags))}
            base = reference(check.work, "trb" + name, l, [w.progs[pick[k]] for k in sorted(pick)], [[{}]] * 4)
            orig = {k: base[i][0][INPUT][1] for i, k in enumerate(sorted(pick))}
            ids = {k: sorted(x for x, (fn, g, a) in w.recorded.items() if fn == pick[k]) for k in pick}
            lines, meta = [], []
            for q, (_, hists) in enumerate(got):
                for _, hist, log in hists if not large or check.tier == "thorough" else hists[::3]:
                    ev, cur = [], 0
                    for e in hist:
                        if e[1] - 1 != cur:
                            cur = e[1] - 1
                            ev.append("P:%d" % cur)
                        ev.append("B:%d:%d" % (e[2], pick[tuple(e[3])]) if e[0] == "B" else "S:%d" % e[2] if e[0] == "S" else "K")
                    trk = os.path.join(check.work, "%s.%d.trk" % (name, len(lines)))
                    lines.append("%d %d - %s %s" % (q >= 2, INPUT, trk, " ".join(ev)))
                    meta.append((hist, ev, trk))
            for line, (hist, ev, trk), (bad, evs) in zip(lines, meta, replay(name, lines)):
                check.validated()
                data = b""
                if os.path.exists(trk):
                    with open(trk, "rb") as f:
                        data = f.read()
                    os.unlink(trk)
                wrong = None
                real = iter([e for e, x in zip(evs, [v for v in ev]) if x[0] != "P"])
                done = [next(real) for _ in hist]
                if behaviour:
                    for e, (d, dg) in zip(hist, done):
                        if e[0] == "B" and d and dg != orig[tuple(e[3])]:
                            wrong = "function %d of file %d returns something else in thread %d of process %d" % (e[3][1], e[3][0], e[2], e[1])
                        if e[0] == "B" and not d and not any(k[0] == "K" and k[1] == e[1] for k in hist):
                            wrong = "thread %d of process %d never finishes function %d of file %d" % (e[2], e[1], e[3][1], e[3][0])
                    if bad and not wrong:
                        wrong = "a process does not end normally"
                else:
                    wrong = judge(hist, done, ids, data)
                if wrong:
                    check.violation("%s %s" % (name, show(hist)),
                                    "%s program, %s files, two files tracked\nschedule (B p.t: thread t of process p begins a function, S: a suspended thread goes on, K: the process is killed): %s\n%s" % (
                                        l, "large" if large else "small", show(hist), wrong),
                                    {"a" + corpus.EXT[l]: w.batches[0].text, "b" + corpus.EXT[l]: w.batches[1].text, "tracking.txt": data})
            check.count("schedules_%s" % name, len(lines))
            check.sample({"schedule": show(meta[len(meta) // 2][0]), "files": "large" if large else "small"})
            together(check, w, name, behaviour)


def judge(hist, done, ids, data):
    """the tracking file against the history"""
    if data and not data.endswith(b"\n"):
        return "the last line is incomplete"
    try:
        lines = [int(x) for x in data.split(b"\n")[:-1]]
    except ValueError:
        return "the file holds lines that are not numbers: %r" % data[:200]
    must, may, known = {}, {}, set()
    for p in sorted({e[1] for e in hist}):
        finished, begun = set(), set()
        for e, (d, dg) in zip(hist, done):
            if e[0] == "B" and e[1] == p:
                begun.update(ids[tuple(e[3])])
                if d:
                    finished.update(ids[tuple(e[3])])
        threads = {e[2] for e in hist if e[0] == "B" and e[1] == p}
        killed = any(e[0] == "K" and e[1] == p for e in hist)
        if killed and len(threads) > 1:
            # a thread may have passed a place that another one was still recording
            busy = set()
            for e, (d, dg) in zip(hist, done):
                if e[0] == "B" and e[1] == p and not d:
                    busy.update(ids[tuple(e[3])])
            finished -= busy
        for x in finished:
            must[x] = must.get(x, 0) + 1
        for x in begun:
            may[x] = may.get(x, 0) + 1
    for x in sorted(set(lines) | set(may)):
        n = lines.count(x)
        if n < must.get(x, 0):
            return "mutant %d was reached by %d process(es) but is recorded %d time(s)" % (x, must[x], n)
        if n > may.get(x, 0):
            return "mutant %d was reached by %d process(es) but is recorded %d time(s)" % (x, may.get(x, 0), n)
    return None


def together(check, w, name, behaviour):
    """threads that run everything at the same time: every place recorded once"""
    n = len(w.progs)
    rounds = 12 if check.tier == "thorough" else 4
    trks = [os.path.join(check.work, "%s.f%d.trk" % (name, k)) for k in range(rounds + 1)]
    out = w.m.replay(["0 %d - %s F:%d:%d" % (INPUT, t, 8 if k else 1, n) for k, t in enumerate(trks)])
    want = out[0][1][0][1]
    ref = None
    for k, (t, (bad, evs)) in enumerate(zip(trks, out)):
        check.validated()
        data = b""
        if os.path.exists(t):
            with open(t, "rb") as f:
                data = f.read()
            os.unlink(t)
        lines = sorted(data.split(b"\n")[:-1])
        if ref is None:
            ref = lines
        if behaviour and (bad or evs[0] != (1, want)):
            check.violation("%s free running threads" % name, "8 threads running all functions do not all behave as one thread does")
        if not behaviour and lines != ref:
            twice = sorted({x for x, y in zip(lines, lines[1:]) if x == y})
            check.violation("%s free running threads" % name, "8 threads running the same functions: %d lines recorded instead of %d%s" % (
                len(lines), len(ref), "; twice or more: %s" % b" ".join(twice[:20]).decode("utf-8", "replace") if twice else ""))
