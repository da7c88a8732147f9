"""What each program of the specification does, unmutated and under each of its mutants.

The meaning comes from the specification's edits, compiled with undefined-behaviour traps (execute.reference).
It does not depend on the code under test, so it is kept in /verif/cache and recomputed whenever a
program, an edit or the runtime differs from what the stored entry was computed from.
"""
import base64
import hashlib
import json
import lzma
import os

import corpus
from batch import env_header
from common import VERIF
from execute import DONE, HERE, NIN, reference
from lang import edits_for

CACHE = os.path.join(VERIF, "cache")
TABLE = {}


def version():
    h = hashlib.sha256(b"2")
    h.update((env_header("c") + env_header("cpp")).encode())
    for n in ("rt.c", "rt.h"):
        with open(os.path.join(HERE, n), "rb") as f:
            h.update(f.read())
    with open(os.path.join(HERE, "lang.py")) as f:
        s = f.read()
        h.update(s[s.index("class Reference"):].encode())
    with open(os.path.join(HERE, "drv.c")) as f:
        s = f.read()
        h.update(s[s.index("static struct cell one"):s.index('"reach"')].encode())
    return h.hexdigest()


def key(p, ver):
    return corpus.digest(ver, p.lang, p.params, p.ret, json.dumps(p.body),
                         json.dumps([[g.kind, g.path, g.acts, g.edits] for g in p.groups[0]]))[:24]


def variants(p):
    """the unmutated program, then every mutant of the full catalogue: ([edits], {(kind, path, action): variant})"""
    vs, idx = [{}], {}
    for g in p.groups[0]:
        for k, a in enumerate(g.acts):
            idx[(g.kind, g.path, a)] = len(vs)
            vs.append(edits_for([(g, k)]))
    return vs, idx


def summary(row, orig):
    """(mask of the inputs with a defined result, digest of those results, mask of the inputs that tell it from the original)"""
    mask = kill = 0
    for n, (st, h) in enumerate(row):
        if st == DONE:
            mask |= 1 << n
            if orig[n][0] == DONE and orig[n][1] != h:
                kill |= 1 << n
    return mask, fold(row, mask), kill


def fold(row, mask):
    h = hashlib.blake2b(digest_size=5)
    for n in range(NIN):
        if mask >> n & 1:
            h.update(b"%d:%d;" % row[n])
    return h.digest()


def _compute(work, lang, lo, hi, todo):
    ps = [corpus.PROGS[lang][i] for i in todo]
    res = reference(work, "rc_%s_%d" % (lang, lo), lang, ps, [variants(p)[0] for p in ps])
    return [[summary(row, rows[0]) for row in rows] for rows in res]


def load(check, langs=("c", "cpp"), fresh=False):
    """TABLE[lang][program index] = [(mask, digest, kills)] per variant"""
    ver = version()
    for lang in langs:
        f = os.path.join(CACHE, "ref_%s.xz" % lang)
        store = {}
        if os.path.exists(f) and not fresh:
            with open(f, "rb") as fh:
                d = json.loads(lzma.decompress(fh.read()))
            if d["version"] == ver:
                store = d["table"]
        ps = corpus.PROGS[lang]
        keys = [key(p, ver) for p in ps]
        out = [None] * len(ps)
        todo = []
        for i, k in enumerate(keys):
            if k in store:
                raw = base64.b64decode(store[k])
                out[i] = [(int.from_bytes(raw[o:o + 6], "little"), raw[o + 6:o + 11], int.from_bytes(raw[o + 11:o + 17], "little")) for o in range(0, len(raw), 17)]
            else:
                todo.append(i)
        jobs = [(check.work, lang, lo, lo + 60, todo[lo:lo + 60]) for lo in range(0, len(todo), 60)]
        for j, res in zip(jobs, corpus.pmap(_compute, jobs)):
            for i, r in zip(j[4], res):
                out[i] = r
        check.count("reference_tables_computed_" + lang, len(todo))
        TABLE[lang] = out
    return TABLE


def save():
    os.makedirs(CACHE, exist_ok=True)
    ver = version()
    for lang, out in TABLE.items():
        t = {}
        for p, rows in zip(corpus.PROGS[lang], out):
            t[key(p, ver)] = base64.b64encode(b"".join(m.to_bytes(6, "little") + h + k.to_bytes(6, "little") for m, h, k in rows)).decode()
        with open(os.path.join(CACHE, "ref_%s.xz" % lang), "wb") as f:
            f.write(lzma.compress(json.dumps({"version": ver, "table": t}, sort_keys=True).encode()))
