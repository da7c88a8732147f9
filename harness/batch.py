"""Batches of specification programs as source files, and what the specification predicts for them."""
import bisect
import random

from lang import Natural, ctype
from tool import Text

ENV_DECLS = [
    ("int", "g0"), ("long", "g1"), ("uint", "g2"), ("double", "gd"), ("bool", "gb"), ("char", "gc"),
]


def env_header(lang):
    b = ctype(lang, "bool")
    ext = 'extern "C" ' if lang == "cpp" else "extern "
    s = []
    for t, v in ENV_DECLS:
        s.append("%s%s %s;" % (ext, ctype(lang, t), v))
    s.append(ext + "volatile int gv;")
    s.append(ext + "int arr[8];")
    s.append("struct S { int m; unsigned int bf : 5; };")
    s.append(ext + "struct S st;")
    s.append(ext + "int* p0;")
    s.append(ext + "int se(int);")
    s.append(ext + "%s seb(int);" % b)
    s.append(ext + "long sel(long);")
    s.append(ext + "unsigned int seu(unsigned int);")
    s.append(ext + "double sed(double);")
    s.append(ext + "char sec(char);")
    s.append(ext + "int se2(int, long);")
    s.append(ext + "void out(long);")
    s.append("struct A8 { int m[8]; };")
    if lang == "cpp":
        s.append("struct P2 { int x; int y; };")
        s.append("template <int N> constexpr int tf(int x) { return x + N; }")
        s.append("template <int N> struct Ct { int v; static constexpr int g(int x) { return x * N; } };")
        s.append("#if __cplusplus >= 202002L")
        s.append("template <class T> concept ItsInt = sizeof(T) == sizeof(int);")
        s.append("consteval int ce(int x) { return x; }")
        s.append("#endif")
    return "\n".join(s) + "\n"


class Batch:
    """progs[i] becomes function <prefix><i>; spans[i] maps a path to ((line,col),(line,col))"""

    def __init__(self, lang, progs, style=0, seed=0, prefix="f", header=None, crlf=False):
        self.lang, self.progs, self.prefix = lang, progs, prefix
        rng = random.Random(seed)
        parts = [env_header(lang) if header is None else header]
        off = len(parts[0].encode("utf-8"))
        raw_spans = []
        for i, p in enumerate(progs):
            st = style if style >= 0 else rng.choice([0, 0, 1, 2])
            if st == 3 and i % 3 == 0:
                parts.append('#line %d "gr%d.y"\n' % (7 * i + 900, i))
                off += len(parts[-1])
            w = Natural(lang, st, rng)
            w.function("%s%d" % (prefix, i), p)
            txt = "".join(w.buf)
            raw_spans.append({k: (a + off, b + off) for k, (a, b) in w.spans.items()})
            parts.append(txt)
            off += len(txt.encode("utf-8"))
        self.text = "".join(parts)
        self.index = Text(self.text)
        if crlf:
            before = self.index.starts
            cr = lambda x: x + bisect.bisect_right(before, x) - 1
            raw_spans = [{k: (cr(a), cr(b)) for k, (a, b) in d.items()} for d in raw_spans]
            self.text = self.text.replace("\n", "\r\n")
            self.index = Text(self.text)
        self.offsets = raw_spans
        loc = self.index.locate
        self.spans = [{k: (loc(a), loc(b)) for k, (a, b) in d.items()} for d in raw_spans]

    def source(self, i, path):
        a, b = self.offsets[i][path]
        return self.index.data[a:b].decode("utf-8")

    def snippet(self, i, path):
        """what the tool shows for a region: abbreviated when it is more than 36 bytes, never inside a character"""
        a, b = self.offsets[i][path]
        s = self.index.data[a:b]
        if len(s) <= 36:
            return s.decode("utf-8")
        p, q = 10, len(s) - 10
        while s[p] & 0xC0 == 0x80:
            p += 1
        while s[q] & 0xC0 == 0x80:
            q -= 1
        return s[:p].decode("utf-8") + " ... [snip] ... " + s[q:].decode("utf-8")

    # ---- predictions (regime 0: every mutant, 1: optimised) ----
    def predicted_groups(self, regime, first=0):
        """[(function index, group, first id)] in id order, including groups without mutants"""
        out = []
        for i, p in enumerate(self.progs):
            for g in p.groups[regime]:
                out.append((i, g, first + g.first))
            first += p.totals[regime]
        return out

    def total(self, regime):
        return sum(p.totals[regime] for p in self.progs)

    def predicted_tree(self, regime):
        """nested [[(function, kind, path)], [children]] for the whole file"""
        def conv(i, t):
            gs, ch = t
            return [[(i, k, tuple(p)) for k, p in gs], [conv(i, c) for c in ch]]

        def empty(t):
            return not t[0] and all(empty(c) for c in t[1])
        kids = [conv(i, p.trees[regime]) for i, p in enumerate(self.progs)]
        kids = [k for k in kids if not empty(k)]
        if len(kids) == 1:
            return kids[0]
        return [[], kids]
