"""Terms of the specification (spec/Lang.tla) and their concrete syntax.

A term is the list the specification emits:
  [k, op, t, lv, q, v, n, children]      or   ["Orig", path]   in an edit.
"""
import random
import re

K, OP, T, LV, Q, V, N, C = range(8)

CTYPE = {
    "bool": "_Bool", "char": "char", "schar": "signed char", "uchar": "unsigned char",
    "short": "short", "ushort": "unsigned short", "int": "int", "uint": "unsigned int",
    "long": "long", "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long",
    "float": "float", "double": "double", "ldouble": "long double", "void": "void",
}


def ctype(lang, t):
    return "bool" if t == "bool" and lang == "cpp" else CTYPE[t]


BINSYM = {
    "Add": "+", "Div": "/", "Mul": "*", "Rem": "%", "Sub": "-", "And": "&", "Or": "|", "Xor": "^",
    "LAnd": "&&", "LOr": "||", "EQ": "==", "NE": "!=", "GE": ">=", "GT": ">", "LE": "<=", "LT": "<",
    "Shl": "<<", "Shr": ">>", "Assign": "=", "AddAssign": "+=", "AndAssign": "&=", "DivAssign": "/=",
    "MulAssign": "*=", "OrAssign": "|=", "RemAssign": "%=", "ShlAssign": "<<=", "ShrAssign": ">>=",
    "SubAssign": "-=", "XorAssign": "^=", "Comma": ",",
}
PREC = {
    "Mul": 13, "Div": 13, "Rem": 13, "Add": 12, "Sub": 12, "Shl": 11, "Shr": 11,
    "LT": 9, "LE": 9, "GT": 9, "GE": 9, "EQ": 8, "NE": 8, "And": 7, "Xor": 6, "Or": 5, "LAnd": 4, "LOr": 3,
    "Comma": 0,
}
UNSYM = {"PreInc": "++", "PreDec": "--", "PostInc": "++", "PostDec": "--",
         "Not": "~", "Minus": "-", "LNot": "!", "Plus": "+"}
ALTERNATIVE = {"&&": "and", "||": "or", "!": "not", "~": "compl", "&": "bitand", "|": "bitor", "^": "xor", "!=": "not_eq",
               "&=": "and_eq", "|=": "or_eq", "^=": "xor_eq"}


HOLE = re.compile(r"#(\d)")


def strip(e):
    while e[K] in ("ImpCast", "Frozen", "Full", "Macro"):
        e = e[C][0]
    return e


def prec(e):
    e = strip(e)
    k = e[K]
    if k == "Bin":
        return PREC.get(e[OP], 1)
    if k == "Cond":
        return 2
    if k == "Un":
        return 15 if e[OP].startswith("Post") else 14
    if k in ("Cast", "SizeOf", "Deref"):
        return 14
    return 16


def literal(e):
    k, t, n = e[K], e[T], e[N]
    if k == "IntLit":
        return str(n) + {"int": "", "uint": "u", "long": "l", "ulong": "ul", "llong": "ll", "ullong": "ull"}[t]
    if k == "BoolLit":
        return "true" if n else "false"
    if k == "CharLit":
        return "'%s'" % chr(n) if 32 < n < 127 and chr(n) not in "'\\" else "'\\%o'" % n
    if k == "FltLit":
        return ("%d.%d" % (n // 2, 5 if n % 2 else 0)) + {"float": "f", "double": "", "ldouble": "L"}[t]
    raise ValueError(k)


class NeedsParens(Exception):
    pass


class Natural:
    """Writes a program as a programmer would, recording the extent of every sub-term.

    style: 0 plain, 1 compact (no optional white space), 2 ragged (line breaks, comments, tabs),
    5 all on one line, 3 foreign (as 2, with characters of several bytes and spliced lines); positions count bytes
    """

    def __init__(self, lang, style=0, rng=None, out=None):
        self.lang, self.style = lang, style
        self.rng = rng or random.Random(0)
        self.buf = [] if out is None else out
        self.pos = 0
        self.last = ""
        self.spans = {}
        self.name = ""
        self.macros = {}

    def tok(self, s, glue=False):
        if not s:
            return
        if self.last and not glue:
            a, b = self.last[-1], s[0]
            merge = (a.isalnum() or a == "_") and (b.isalnum() or b == "_") or (a == b and a in "+-&|<>=") \
                or (a in "+-*/%&|^<>=!" and b in "=") or (a == "/" and b in "/*") or (a == "-" and b == ">")
            if merge:
                self.raw(" ")
        self.raw(s)

    def raw(self, s):
        if not s:
            return
        self.buf.append(s)
        self.pos += len(s.encode("utf-8"))
        self.last = s

    def op(self, s):
        """an operator, which C++ can spell in other ways and any line can be spliced in"""
        if self.style in (2, 3) and self.lang == "cpp" and s in ALTERNATIVE and self.rng.random() < 0.4:
            s = ALTERNATIVE[s]
        elif self.style == 3 and len(s) > 1 and self.rng.random() < 0.3:
            s = s[0] + "\\\n" + s[1:]
        self.tok(s)

    def ws(self):
        """optional white space"""
        if self.style == 0:
            self.raw(" ")
        elif self.style == 5:
            self.raw(" ")
        elif self.style == 2:
            self.raw(self.rng.choice([" ", " ", "  ", "\n        ", " /* c */ ", "\t", " // x < y\n    ", ""]))
        elif self.style == 3:
            self.raw(self.rng.choice([" ", " ", " /*\u00e9*/", "\n    /* \u4e16\u754c\u00df\U0001f600 */ ", " /* c */ ", "\t",
                                      " // \u00fc\u00fc\n    ", " \\\n   ", "\f", ""]))

    def nl(self, ind):
        if self.style == 1:
            self.raw("\n")
        elif self.style == 5:
            self.raw(" ")
        else:
            self.raw("\n" + "  " * ind)

    # expressions
    def sub(self, e, path, limit):
        if prec(e) < limit:
            raise NeedsParens("%s under precedence %d" % (strip(e)[OP], limit))
        self.expr(e, path)

    def expr(self, e, path):
        self.mark_pending = None
        start = self._start()
        self._expr(e, path)
        # the first token may have been preceded by a separating space
        self.spans[path] = (self._fix(start), self.pos)
        if e[K] == "Macro":     # whatever is all of the expansion extends over the use of the macro
            x, p = e, path
            while x[K] in ("Macro", "ImpCast"):
                x, p = x[C][0], p + (1,)
                self.spans[p] = self.spans[path]

    def _start(self):
        return (len(self.buf), self.pos)

    def _fix(self, st):
        i, p = st
        while i < len(self.buf) and not self.buf[i].strip():
            p += len(self.buf[i])
            i += 1
        return p

    def _expr(self, e, path):
        k, op, c = e[K], e[OP], e[C]
        if k in ("ImpCast", "Frozen", "Full"):
            self.expr(c[0], path + (1,))
        elif k == "Macro":
            self.tok(self.macros[path])
            if op == "paste":
                self.tok("(%s, %s)" % (c[0][V][:-1], c[0][V][-1]))
            elif op in ("id", "snd"):
                self.tok("(" if op == "id" else "(7, ")
                self.expr(c[0], path + (1,))
                self.tok(")")
            elif op in ("two", "swap"):
                self.tok("(")
                order = (1, 2) if op == "two" else (2, 1)
                for n, i in enumerate(order):
                    if n:
                        self.tok(",")
                        self.ws()
                    self.sub(c[0][C][i - 1], path + (1, i), 3)
                self.tok(")")
        elif k in ("Ctx", "Init"):
            self.text(e, path)
        elif k in ("IntLit", "BoolLit", "CharLit", "FltLit"):
            self.tok(literal(e))
        elif k in ("Ref", "Member"):
            self.tok(self.named(e[V]))
        elif k == "Deref":
            self.tok("*")
            self.tok(e[V])
        elif k == "Paren":
            self.tok("(")
            self.expr(c[0], path + (1,))
            self.tok(")")
        elif k == "Un":
            if op.startswith("Post"):
                self.sub(c[0], path + (1,), 15)
                self.tok(self.macros[path] if e[V] else UNSYM[op], glue=not e[V])
            else:
                if e[V]:
                    self.tok(self.macros[path])
                else:
                    self.op(UNSYM[op])
                self.sub(c[0], path + (1,), 14)
        elif k == "Bin":
            p = PREC.get(op, 1)
            right_assoc = op.endswith("Assign")
            if e[V] != "half":
                self.sub(c[0], path + (1,), p + 1 if right_assoc else p)
                self.ws()
            if e[V]:
                self.tok(self.macros[path])
            else:
                self.op(BINSYM[op])
            if e[V] != "tail":
                self.ws()
                self.sub(c[1], path + (2,), p if right_assoc else p + 1)
        elif k == "Cond":
            self.sub(c[0], path + (1,), 3)
            self.ws()
            self.tok("?")
            self.ws()
            self.expr(c[1], path + (2,))
            self.ws()
            self.tok(":")
            self.ws()
            self.sub(c[2], path + (3,), 2)
        elif k == "Call":
            self.tok(e[V])
            self.tok("(")
            for i, a in enumerate(c):
                if i:
                    self.tok(",")
                    self.ws()
                self.sub(a, path + (i + 1,), 1)
            self.tok(")")
        elif k == "Cast" and op in ("static", "fn"):
            self.tok("static_cast<%s>(" % ctype(self.lang, e[T]) if op == "static" else ctype(self.lang, e[T]) + "(")
            self.expr(c[0], path + (1,))
            self.tok(")")
        elif k == "Cast":
            self.tok("(" + ctype(self.lang, e[T]) + ")")
            self.sub(c[0], path + (1,), 14)
        elif k == "Index":
            self.tok(self.named(e[V]))
            self.tok("[")
            self.expr(c[0], path + (1,))
            self.tok("]")
        elif k == "SizeOf":
            self.tok("sizeof")
            if strip(c[0])[K] != "Paren":
                self.raw(" ")
            self.expr(c[0], path + (1,))
        else:
            raise ValueError(k)

    def named(self, s):
        return s.replace("@", self.name)

    def text(self, e, path, ind=1):
        """a construct given by its text; returns the position after it, without a final semicolon"""
        end = None
        for n, piece in enumerate(HOLE.split(e[V])):
            if n % 2 == 0:
                piece = self.named(piece)
                if piece == ";":
                    end = self.pos
                self.tok(piece)
                if piece.endswith(";"):
                    end = self.pos - 1
            else:
                x, at = e[C][int(piece) - 1], path + (int(piece),)
                if x[T] == "":
                    self.stmt(x, at, ind)
                else:
                    self.expr(x, at)
                end = None
        return end

    # statements; ind is the indentation level
    def stmt(self, s, path, ind):
        start = self._start()
        end = None
        k, c = s[K], s[C]
        if s[T] != "":
            self.expr(s, path)
            end = self.pos
            self.tok(";")
            self.spans[path] = (self.spans[path][0], end)
            return
        if k == "Compound":
            self.tok("{")
            for i, x in enumerate(c):
                if x[K] == "Ctx" and x[OP] == "top":
                    continue
                self.nl(ind + 1)
                self.stmt(x, path + (i + 1,), ind + 1)
            self.nl(ind)
            self.tok("}")
        elif k == "If":
            self.tok("if")
            self.ws()
            self.tok("(")
            self.expr(c[0], path + (1,))
            self.tok(")")
            self.ws()
            self.stmt(c[1], path + (2,), ind + 1)
            if len(c) == 3:
                self.nl(ind)
                self.tok("else")
                self.raw(" ")
                self.stmt(c[2], path + (3,), ind + 1)
            end = self.spans[path + (len(c),)][1]
        elif k == "While":
            self.tok("while")
            self.ws()
            self.tok("(")
            self.expr(c[0], path + (1,))
            self.tok(")")
            self.ws()
            self.stmt(c[1], path + (2,), ind + 1)
            end = self.spans[path + (2,)][1]
        elif k == "Do":
            self.tok("do")
            self.raw(" ")
            self.stmt(c[0], path + (1,), ind + 1)
            self.ws()
            self.tok("while")
            self.ws()
            self.tok("(")
            self.expr(c[1], path + (2,))
            self.tok(")")
            end = self.pos
            self.tok(";")
        elif k == "For":
            self.tok("for")
            self.ws()
            self.tok("(")
            if c[0][K] == "None":
                self.tok(";")
            elif c[0][K] == "Decl":
                self.stmt(c[0], path + (1,), ind)
            else:
                self.expr(c[0], path + (1,))
                self.tok(";")
            self.ws()
            if c[1][K] != "None":
                self.expr(c[1], path + (2,))
            self.tok(";")
            self.ws()
            if c[2][K] != "None":
                self.expr(c[2], path + (3,))
            self.tok(")")
            self.ws()
            self.stmt(c[3], path + (4,), ind + 1)
            end = self.spans[path + (4,)][1]
        elif k == "Switch":
            self.tok("switch")
            self.ws()
            self.tok("(")
            self.expr(c[0], path + (1,))
            self.tok(")")
            self.ws()
            self.stmt(c[1], path + (2,), ind + 1)
        elif k == "Case":
            self.tok("case")
            if len(c) == 1:
                self.tok(str(s[N]))
            else:
                self.expr(c[1], path + (2,))
            if len(c) == 3:
                self.raw(" ... ")
                self.expr(c[2], path + (3,))
            self.tok(":")
            self.ws()
            self.stmt(c[0], path + (1,), ind)
            end = self.spans[path + (1,)][1]
        elif k == "Default":
            self.tok("default")
            self.tok(":")
            self.ws()
            self.stmt(c[0], path + (1,), ind)
            end = self.spans[path + (1,)][1]
        elif k == "Return":
            self.tok("return")
            if c:
                self.ws()
                self.expr(c[0], path + (1,))
            end = self.pos
            self.tok(";")
        elif k in ("Break", "Continue"):
            self.tok(k.lower())
            end = self.pos
            self.tok(";")
        elif k == "Null":
            self.tok(";")
        elif k == "Label":
            self.tok(s[V])
            self.tok(":")
            self.ws()
            self.stmt(c[0], path + (1,), ind)
            end = self.spans[path + (1,)][1]
        elif k == "Goto":
            self.tok("goto")
            self.tok(s[V])
            end = self.pos
            self.tok(";")
        elif k == "Ctx":
            end = self.text(s, path, ind)
        elif k == "MacroS":
            self.tok(self.macros[path])
            if c[0][K] != "Compound":
                end = self.pos
                self.tok(";")
        elif k == "Decl":
            if s[OP] == "static":
                self.tok("static")
            if s[Q]:
                self.tok(s[Q])
            self.tok(ctype(self.lang, decl_type(s)))
            self.tok(s[V])
            self.ws()
            self.tok("=")
            self.ws()
            self.sub(c[0], path + (1,), 1)
            self.tok(";")
        else:
            raise ValueError(k)
        self.spans[path] = (self._fix(start), self.pos if end is None else end)

    def define(self, e, path):
        """the definitions of the macros used in a term"""
        for i, x in enumerate(e[C]):
            self.define(x, path + (i + 1,))
        if e[K] not in ("Macro", "MacroS") and not (e[K] in ("Bin", "Un") and e[V]):
            return
        m = "%s_M%d" % (self.name.upper(), len(self.macros))
        w = Natural(self.lang, 5)
        w.name, w.macros = self.name, self.macros
        if e[K] == "MacroS":
            w.stmt(e[C][0], path + (1,), 0)
        elif e[K] == "Un":
            w.tok(UNSYM[e[OP]])
        elif e[K] == "Bin":
            if e[V] == "half":
                w.sub(e[C][0], path + (1,), PREC[e[OP]])
                w.raw(" ")
            w.tok(BINSYM[e[OP]])
            if e[V] == "tail":
                w.raw(" ")
                w.sub(e[C][1], path + (2,), 15)
        elif e[OP] == "obj":
            w.expr(e[C][0], path + (1,))
        body = "".join(w.buf).rstrip(";")
        par = {"id": "(x)", "snd": "(x, y)", "paste": "(x, y)", "two": "(x, y)", "swap": "(x, y)"}.get(e[OP], "")
        sym = BINSYM.get(e[C][0][OP], "") if e[C] else ""
        body = {"id": "x", "snd": "y", "paste": "x##y", "two": "x %s y" % sym, "swap": "y %s x" % sym}.get(e[OP], body)
        self.macros[path] = m
        self.raw("#define %s%s %s\n" % (m, par, body))

    def function(self, name, prog):
        self.name = name
        self.define(prog.body, ())
        for i, x in enumerate(prog.body[C]):
            if x[K] == "Ctx" and x[OP] == "top":
                self.stmt(x, (i + 1,), 0)
                self.raw("\n")
        ps = ", ".join("%s%s %s" % (q + " " if q else "", ctype(self.lang, t), v) for v, t, q in prog.params)
        self.raw("%s %s(%s) " % (ctype(self.lang, prog.ret), name, ps or "void"))
        self.stmt(prog.body, (), 0)
        self.raw("\n")


def decl_type(s):
    return s[C][0][T]


class Program:
    """A program of the specification together with what the specification says about it."""

    __slots__ = ("lang", "fam", "tag", "params", "ret", "body", "groups", "trees", "totals", "key")

    def __init__(self, em):
        (self.lang, self.fam, self.tag, self.params, self.ret, self.body, gs, self.trees, self.totals) = em
        self.groups = [[Group(*g) for g in regime] for regime in gs]
        self.key = "%s:%s:%s" % (self.lang, self.fam, self.tag)


class Group:
    __slots__ = ("kind", "path", "first", "acts", "edits")

    def __init__(self, kind, path, first, acts, edits):
        self.kind, self.path, self.first, self.acts, self.edits = kind, tuple(path), first, acts, edits


def at(e, path):
    for i in path:
        e = e[C][i - 1]
    return e


class Reference:
    """Writes a program, possibly edited, with every conversion explicit and everything parenthesised.

    edits: {path: {"op": edit or None, "expr": edit or None, "stmt": bool}}; several may be present
    (higher-order mutants); at one node an operator edit applies inside an expression edit.
    reach: {(path, kind): k} emits a call R(k) when that group's site is evaluated
    """

    def __init__(self, prog, edits=None, reach=None):
        self.p, self.lang = prog, prog.lang
        self.edits = edits or {}
        self.reach = reach or {}
        self.name = ""

    def ty(self, t):
        return ctype(self.lang, t)

    def expr(self, e, path):
        ed = self.edits.get(path)
        if ed is None:
            s = self.plain(e, path)
        else:
            if ed.get("op") is not None:
                inner = self.edit(ed["op"], path, None)
            else:
                inner = self.plain(e, path)
            s = self.edit(ed["expr"], path, inner) if ed.get("expr") is not None else inner
        for kind in ("ReplaceUnary", "ReplaceBinary", "ReplaceExpr"):
            k = self.reach.get((path, kind))
            if k is not None:
                if e[LV]:
                    s = "(*(R(%d), &%s))" % (k, s)
                    s = "(*({ %s v_ = &%s; R2(%d); v_; }))" % ("__auto_type" if self.lang == "c" else "auto", s, k)
                elif e[T] == "void":
                    s = "({ R(%d); %s; R2(%d); })" % (k, s, k)
                else:
                    s = "({ R(%d); %s v_ = %s; R2(%d); v_; })" % (k, self.ty(e[T]), s, k)
        return s

    def edit(self, ed, path, inner):
        """the text of an edit; Orig(path) is the unedited node itself (inner), other Origs are sub-terms"""
        if ed[0] == "Orig":
            p = tuple(ed[1])
            if p == path:
                return inner
            return self.expr(at(self.p.body, p), p)
        k, op, c = ed[K], ed[OP], ed[C]
        sub = lambda i: self.edit(c[i], path, inner)
        if k == "XCast":
            return "((%s)%s)" % (self.ty(ed[T]), sub(0))
        if k == "Then":
            return "((void)%s, %s)" % (sub(0), sub(1))
        if k == "LThenR":
            return "({ %s l_ = %s; (void)%s; l_; })" % (self.ty(ed[T]), sub(0), sub(1))
        if k == "Bin":
            return "(%s %s %s)" % (sub(0), BINSYM[op], sub(1))
        if k == "Un":
            return "(%s %s)" % (sub(0), UNSYM[op]) if op.startswith("Post") else "(%s %s)" % (UNSYM[op], sub(0))
        if k == "IntLit":
            return "(%d)" % ed[N]
        if k == "FltLit":
            return "(%.1f)" % (ed[N] / 2)
        raise ValueError(k)

    def plain(self, e, path):
        k, op, c = e[K], e[OP], e[C]
        sub = lambda i: self.expr(c[i], path + (i + 1,))
        if k == "ImpCast":
            if op == "LValueToRValue":
                return sub(0)
            return "((%s)%s)" % (self.ty(e[T]), sub(0))
        if k in ("IntLit", "BoolLit", "CharLit", "FltLit"):
            return literal(e)
        if k in ("Frozen", "Full", "Macro"):
            return sub(0)
        if k == "Init":
            return self.text(e, path)
        if k == "Ctx":
            return "(%s)" % self.text(e, path)
        if k in ("Ref", "Member"):
            return "(%s)" % self.named(e[V])
        if k == "Deref":
            return "(*%s)" % e[V]
        if k == "Paren":
            return "(%s)" % sub(0)
        if k == "Un":
            return "(%s %s)" % (sub(0), UNSYM[op]) if op.startswith("Post") else "(%s %s)" % (UNSYM[op], sub(0))
        if k == "Bin":
            return "(%s %s %s)" % (sub(0), BINSYM[op], sub(1))
        if k == "Cond":
            return "(%s ? %s : %s)" % (sub(0), sub(1), sub(2))
        if k == "Call":
            return "%s(%s)" % (e[V], ", ".join(sub(i) for i in range(len(c))))
        if k == "Cast":
            return "((%s)%s)" % (self.ty(e[T]), sub(0))
        if k == "Index":
            return "(%s[%s])" % (self.named(e[V]), sub(0))
        if k == "SizeOf":
            return "%dul" % e[N]
        raise ValueError(k)

    def named(self, s):
        return s.replace("@", self.name)

    def text(self, e, path):
        out = []
        for n, piece in enumerate(HOLE.split(e[V])):
            if n % 2 == 0:
                out.append(self.named(piece))
            else:
                x, at = e[C][int(piece) - 1], path + (int(piece),)
                out.append(self.stmt(x, at) if x[T] == "" else self.expr(x, at))
        return "".join(out)

    def stmt(self, s, path):
        ed = self.edits.get(path)
        removed = ed is not None and ed.get("stmt")
        r = self.reach.get((path, "RemoveStmt"))
        pre = "R(%d); R2(%d); " % (r, r) if r is not None else ""
        if self.reach and s[K] not in ("Case", "Default", "Label", "Decl") and not (s[K] == "Ctx" and s[OP] in ("decl", "top")) and not s[V] in ("value", "lambda"):
            pre += "RC(); "
        if removed:
            return "{ %s; }" % pre
        if s[T] != "":
            body = "(void)%s;" % self.expr(s, path)
        else:
            body = self._stmt(s, path)
        return "{ %s%s }" % (pre, body) if pre else body

    def _stmt(self, s, path):
        k, c = s[K], s[C]
        ex = lambda i: self.expr(c[i], path + (i + 1,))
        st = lambda i: self.stmt(c[i], path + (i + 1,))
        if k == "Compound":
            if s[V] == "value":     # the value of a statement expression
                last = "%s;" % self.expr(c[-1], path + (len(c),))
                return "{\n" + "".join(st(i) + "\n" for i in range(len(c) - 1)) + last + "}"
            if s[V] == "lambda":    # its type is deduced, whatever is removed
                return "{\n" + "".join(st(i) + "\n" for i in range(len(c))) + "__builtin_trap(); return 0; }"
            return "{\n" + "".join(st(i) + "\n" for i in range(len(c)) if not (c[i][K] == "Ctx" and c[i][OP] == "top")) + "}"
        if k == "If":
            return "if (%s) { %s }" % (ex(0), st(1)) + (" else { %s }" % st(2) if len(c) == 3 else "")
        if k == "While":
            return "while ((FUEL(), %s)) { %s }" % (ex(0), st(1))
        if k == "Do":
            return "do { FUEL(); %s } while (%s);" % (st(0), ex(1))
        if k == "For":
            i0 = ";" if c[0][K] == "None" else st(0) if c[0][K] == "Decl" else "(void)%s;" % ex(0)
            cond = "" if c[1][K] == "None" else ex(1)
            inc = "" if c[2][K] == "None" else "(void)" + ex(2)
            return "for (%s (FUEL()%s); %s) { %s }" % (i0, ", " + cond if cond else ", 1", inc, st(3))
        if k == "Switch":
            return "switch (%s) { %s }" % (ex(0), st(1))
        if k == "Case":
            if s[V] == "range":
                return "case %s ... %s: %s" % (ex(1), ex(2), st(0))
            return "case %s: %s" % (ex(1) if len(c) == 2 else s[N], st(0))
        if k == "Default":
            return "default: %s" % st(0)
        if k == "Return":
            return "return %s;" % ex(0) if c else "return;"
        if k in ("Break", "Continue"):
            return k.lower() + ";"
        if k == "Null":
            return ";"
        if k == "Label":
            return "%s: %s" % (s[V], st(0))
        if k == "Goto":
            return "goto %s;" % s[V]
        if k == "Ctx":
            return ";" if "fallthrough" in s[V] else self.text(s, path)
        if k == "MacroS":
            return st(0)
        if k == "Decl":
            return "%s%s%s %s = %s;" % ("static " if s[OP] == "static" else "", s[Q] + " " if s[Q] else "",
                                       self.ty(decl_type(s)), s[V], ex(0))
        raise ValueError(k)

    def function(self, name):
        self.name = name
        tops = "".join(self.text(x, (i + 1,)) + "\n" for i, x in enumerate(self.p.body[C]) if x[K] == "Ctx" and x[OP] == "top")
        ps = ", ".join("%s%s %s" % (q + " " if q else "", self.ty(t), v) for v, t, q in self.p.params)
        end = "" if self.p.ret == "void" else "__builtin_trap();"
        return tops + "static %s %s(%s) {\n%s\n%s}\n" % (self.ty(self.p.ret), name, ps or "void", self.stmt(self.p.body, ()), end)


def edits_for(pairs):
    """{path: ...} for a list of (group, action index); the first pair of a group wins"""
    out = {}
    for g, j in pairs:
        d = out.setdefault(g.path, {})
        slot = {"RemoveStmt": "stmt", "ReplaceExpr": "expr"}.get(g.kind, "op")
        if slot not in d:
            d[slot] = True if slot == "stmt" else g.edits[j]
    return out
