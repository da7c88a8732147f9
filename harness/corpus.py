"""The programs of spec/Mutate.tla, as batches that are fed to the real tool."""
import hashlib
import multiprocessing as mp
import os

import tlc
import tool
from batch import Batch
from lang import Program

INVARIANTS = ["IdsPartition", "WalkIsNumbering", "GroupsDistinct", "ActionsDistinct", "OptimisedIsSubset", "TreeMirrorsNesting", "WellTyped", "FrozenUntouched"]
ALLFAMS = range(1, 13)
EXT = {"c": ".c", "cpp": ".cc"}

PROGS = {}     # lang -> [Program]; filled before workers are forked


def start(check, langs=("c", "cpp"), fams=ALLFAMS, invariants=INVARIANTS, workers=3):
    return {l: tlc.launch(check.work, "Mutate",
                          {"LANG": '"%s"' % l, "FAMS": "{%s}" % ", ".join(map(str, fams)), "EMIT": "TRUE",
                           "PART": 0, "PARTS": 1}, invariants, workers=workers, name="M" + l) for l in langs}


def load(check, handles):
    for l, h in handles.items():
        r = tlc.collect(h)
        check.model(r)
        ps = [Program(e) for e in r.emitted]
        ps.sort(key=lambda p: (p.key, str(p.body)))
        seen = set()
        out = []
        for p in ps:
            k = (str(p.params), p.ret, str(p.body))
            if k not in seen:
                seen.add(k)
                out.append(p)
        PROGS[l] = out
    return PROGS


def batches(n=120, langs=None):
    """[(lang, start, end)]; programs of one family end up in different batches"""
    out = []
    for l in (langs or sorted(PROGS)):
        k = (len(PROGS[l]) + n - 1) // n
        out += [(l, b, k) for b in range(k)]
    return out


def members(l, b, k):
    return PROGS[l][b::k]


def make(l, b, k, style=0, seed=0):
    """style 4 is style 2 with CR LF line ends"""
    return Batch(l, members(l, b, k), 2 if style == 4 else style, seed * 1000 + b, crlf=style == 4)


_FN = None


def _call(a):
    return _FN(*a)


def pmap(fn, jobs, procs=None):
    """map over processes forked now (so that they see PROGS)"""
    global _FN
    _FN = fn
    jobs = list(jobs)
    if not jobs:
        return []
    with mp.get_context("fork").Pool(min(procs or tool.JOBS, len(jobs))) as p:
        return p.map(_call, jobs, chunksize=1)


def mutate(exe, work, batch, name, regime, track=False, info=True):
    """write the batch, run the tool on it; returns (path of the source, Run)"""
    f = os.path.join(work, name + EXT[batch.lang])
    with open(f, "wb") as o:
        o.write(batch.index.data)
    r = tool.dredd(exe, [f], f + ".json" if info else None, opt=bool(regime), track=track)
    return f, r


def finfo(run):
    if run.rc != 0 or not run.info or len(run.info.get("infoForFiles", [])) != 1:
        return None
    return run.info["infoForFiles"][0]


def match(batch, regime, fi):
    """pair the groups the tool reports with the groups the specification has.

    Returns (pairs, extra, missing): pairs = [(function, spec group, tool group)]."""
    spec = {}
    for i, g, first in batch.predicted_groups(regime):
        if g.acts:
            spec.setdefault((g.kind, batch.spans[i][g.path]), []).append((i, g))
    real = {}
    for jg in tool.file_groups(fi):
        real.setdefault((jg.kind, jg.span), []).append(jg)
    pairs, extra, missing = [], [], []
    for k in sorted(set(spec) | set(real)):
        s, r = spec.get(k, []), real.get(k, [])
        if len(s) == len(r):
            pairs += [(i, g, jg) for (i, g), jg in zip(s, r)]
        else:
            # several groups may share an extent: pair those with equal action lists, report the rest
            s = list(s)
            for jg in r:
                acts = [a for a, _ in jg.insts]
                hit = next((x for x in s if x[1].acts == acts), None)
                if hit is None:
                    extra.append(jg)
                else:
                    s.remove(hit)
                    pairs.append((hit[0], hit[1], jg))
            missing += s
    return pairs, extra, missing


def fn_text(batch, i):
    a, b = batch.offsets[i][()]
    start = batch.index.data.rfind(b"\n", 0, a) + 1
    return batch.index.data[start:b + 1].decode("utf-8")


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()
