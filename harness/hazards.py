"""Programs that the tool is known to handle wrongly (HazardFam in spec/Macros.tla).

They are judged as every other program is, but apart from the rest, so that what is listed in known_findings.json
is reported as such and anything else about them is a violation."""
import corpus
from batch import Batch
from execute import CompileError, Mutated, headers_pch, prepare, reference, defined_mask
from lang import Program
import tlc

REGIME = ("all mutants", "optimised")
FAMILY = 13


def start(check):
    return {l: tlc.launch(check.work, "Mutate", {"LANG": '"%s"' % l, "FAMS": "{%d}" % FAMILY, "EMIT": "TRUE", "PART": 0, "PARTS": 1},
                          ["WellTyped"], workers=1, name="H" + l) for l in ("c", "cpp")}


def judge(check, handles, track=False, behave=True):
    """behave: compare what the programs do (P01, P08); otherwise only whether they compile (P15)"""
    prepare(check.work)
    headers_pch(check.work)
    n = 0
    for l, h in handles.items():
        r = tlc.collect(h)
        check.model(r)
        progs = sorted((Program(e) for e in r.emitted), key=lambda p: p.key)
        for i, p in enumerate(progs):
            row = reference(check.work, "hz%s%d" % (l, i), l, [p], [[{}]])[0][0] if behave else None
            for regime in (0, 1):
                batch = Batch(l, [p])
                f, run = corpus.mutate(check.exe, check.work, batch, "hz%s%d_%d" % (l, i, regime), regime, track=track)
                n += 1
                key = "%s %s" % (p.key, REGIME[regime])
                files = {"input" + corpus.EXT[l]: batch.text}
                if run.rc != 0:
                    check.violation(key + " rejected", "%s\nthe tool fails: %s" % (corpus.fn_text(batch, 0), run.out[-400:]), files)
                    continue
                try:
                    m = Mutated(check.work, "hzm%s%d_%d" % (l, i, regime), batch, f)
                except CompileError as e:
                    if behave:      # that is for P15 to say
                        continue
                    check.violation(key + " does not compile", "%s\nthe file written does not compile:\n%s" % (corpus.fn_text(batch, 0), str(e)[:600]), files)
                    continue
                if not behave:
                    continue
                mask = defined_mask(row)
                for env in (None, "77777"):
                    got = m.run([(env, 0, mask)], sec=10)[0]
                    bad = [j for j in range(len(row)) if mask >> j & 1 and got[j] != row[j]]
                    if bad:
                        check.violation(key + (" with no selection" if env is None else " selecting an identifier that does not exist"),
                                        "%s\non input %d the program written does not do what the original does" % (corpus.fn_text(batch, 0), bad[0]), files)
    check.count("hazard_programs_judged", n)
