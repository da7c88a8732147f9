-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* The fragment of C and C++ that Dredd mutates, as a typed abstract syntax *)
(* in the shape the Clang front end produces it: implicit conversions are   *)
(* explicit nodes, and every node carries its type and its value category.  *)
(*                                                                          *)
(* The "smart constructors" below (MkBin, MkUn, MkAssign, ...) perform the   *)
(* semantic analysis of the language: usual arithmetic conversions,         *)
(* promotion, lvalue-to-rvalue conversion, contextual conversion to bool,   *)
(* and the places where C and C++ differ (the type of a comparison, whether *)
(* an assignment or a pre-increment is an lvalue, ...).  L is "c" or "cpp". *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* k kind, op operator/cast kind, t type, lv is-lvalue, q qualifier,
\* v name/text, n number (literals; for floating literals twice the value), c children
Node(k, op, t, lv, q, v, n, c) ==
  [k |-> k, op |-> op, t |-> t, lv |-> lv, q |-> q, v |-> v, n |-> n, c |-> c]

\* Concatenation of a sequence of sequences (balanced, so that long sequences do not nest deeply)
RECURSIVE FlatFrom(_, _, _)
FlatFrom(ss, lo, hi) ==
  IF lo > hi THEN <<>> ELSE IF lo = hi THEN ss[lo]
  ELSE LET m == (lo + hi) \div 2 IN FlatFrom(ss, lo, m) \o FlatFrom(ss, m + 1, hi)
FlatSeq(ss) == LET s == TLCEval(ss) IN FlatFrom(s, 1, Len(s))

None == Node("None", "", "", FALSE, "", "", 0, <<>>)

----------------------------------------------------------------------------
(* Types *)

IntTypes   == {"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint",
               "long", "ulong", "llong", "ullong"}
FloatTypes == {"float", "double", "ldouble"}
Supported  == IntTypes \cup FloatTypes

IsInt(t)      == t \in IntTypes
IsFloat(t)    == t \in FloatTypes
IsBool(t)     == t = "bool"
IsSigned(t)   == t \in {"char", "schar", "short", "int", "long", "llong"}

Rank(t) == CASE t = "bool" -> 0
             [] t \in {"char", "schar", "uchar"} -> 1
             [] t \in {"short", "ushort"} -> 2
             [] t \in {"int", "uint"} -> 3
             [] t \in {"long", "ulong"} -> 4
             [] t \in {"llong", "ullong"} -> 5
             [] t = "float" -> 10
             [] t = "double" -> 11
             [] t = "ldouble" -> 12
             [] OTHER -> -1

SizeOfType(t) == CASE t \in {"bool", "char", "schar", "uchar"} -> 1
                   [] t \in {"short", "ushort"} -> 2
                   [] t \in {"int", "uint", "float"} -> 4
                   [] t = "ldouble" -> 16
                   [] OTHER -> 8

Promote(t) == IF IsInt(t) /\ Rank(t) < 3 THEN "int" ELSE t

ToUnsigned(t) == CASE t = "int" -> "uint" [] t = "long" -> "ulong" [] t = "llong" -> "ullong" [] OTHER -> t

Common(t1, t2) ==
  IF IsFloat(t1) \/ IsFloat(t2)
  THEN IF Rank(t1) >= Rank(t2) THEN t1 ELSE t2
  ELSE LET a == Promote(t1)
           b == Promote(t2)
       IN IF a = b THEN a
          ELSE IF IsSigned(a) = IsSigned(b) THEN IF Rank(a) >= Rank(b) THEN a ELSE b
          ELSE LET u == IF IsSigned(a) THEN b ELSE a
                   s == IF IsSigned(a) THEN a ELSE b
               IN IF Rank(u) >= Rank(s) THEN u
                  ELSE IF SizeOfType(s) > SizeOfType(u) THEN s
                  ELSE ToUnsigned(s)

CastKind(from, to) ==
  IF IsBool(to) THEN IF IsFloat(from) THEN "FloatingToBoolean" ELSE "IntegralToBoolean"
  ELSE IF IsInt(to) THEN IF IsFloat(from) THEN "FloatingToIntegral" ELSE "IntegralCast"
  ELSE IF IsFloat(from) THEN "FloatingCast" ELSE "IntegralToFloating"

----------------------------------------------------------------------------
(* Conversions *)

\* A conversion node of the same kind as an existing implicit conversion is merged with it.
Conv(t, e) ==
  IF e.t = t THEN e
  ELSE LET kd == CastKind(e.t, t)
       IN IF e.k = "ImpCast" /\ e.op = kd
          THEN [e EXCEPT !.t = t]
          ELSE Node("ImpCast", kd, t, FALSE, "", "", 0, <<e>>)

RV(e) == IF e.lv THEN Node("ImpCast", "LValueToRValue", e.t, FALSE, "", "", 0, <<e>>) ELSE e

\* a (narrow) bit-field promotes to int whatever its declared type
OT(e)        == IF e.q = "bf" THEN "int" ELSE e.t
UnaryConv(e) == Conv(Promote(OT(e)), RV(e))      \* lvalue conversion and promotion
ToBool(e)    == Conv("bool", RV(e))
Scalar(L, e) == IF L = "cpp" THEN ToBool(e) ELSE RV(e)   \* a controlling expression

----------------------------------------------------------------------------
(* Leaves *)

IntLit(n)   == Node("IntLit", "", "int", FALSE, "", "", n, <<>>)
TLit(t, n)  == Node("IntLit", "", t, FALSE, "", "", n, <<>>)     \* 1u, 1l, ...
BoolLit(n)  == Node("BoolLit", "", "bool", FALSE, "", "", n, <<>>)  \* C++ only
CharLit(L, n) == Node("CharLit", "", IF L = "cpp" THEN "char" ELSE "int", FALSE, "", "", n, <<>>)
FltLit(t, n2) == Node("FltLit", "", t, FALSE, "", "", n2, <<>>)  \* n2 is twice the value
Ref(v, t)   == Node("Ref", "", t, TRUE, "", v, 0, <<>>)
RefQ(v, t, q) == Node("Ref", "", t, TRUE, q, v, 0, <<>>)
\* A reference to a const object whose initialiser is the constant n
RefK(v, t, n) == Node("Ref", "k", t, TRUE, "const", v, n, <<>>)

----------------------------------------------------------------------------
(* Operators *)

ArithOps  == <<"Add", "Div", "Mul", "Rem", "Sub">>
AssignOps == <<"AddAssign", "AndAssign", "Assign", "DivAssign", "MulAssign", "OrAssign",
               "RemAssign", "ShlAssign", "ShrAssign", "SubAssign", "XorAssign">>
BitOps    == <<"And", "Or", "Xor">>
LogicOps  == <<"LAnd", "LOr">>
RelOps    == <<"EQ", "NE", "GE", "GT", "LE", "LT">>
ShiftOps  == <<"Shl", "Shr">>
UnOps     == <<"PreInc", "PostInc", "PreDec", "PostDec", "Not", "Minus", "LNot">>

InSeq(x, s)  == \E i \in 1..Len(s) : s[i] = x
IsAssign(op) == InSeq(op, AssignOps)
IsLogic(op)  == InSeq(op, LogicOps)
IsRel(op)    == InSeq(op, RelOps)
IsIncDec(op) == op \in {"PreInc", "PostInc", "PreDec", "PostDec"}
IntOnlyBin(op) == op \in {"Rem", "And", "Or", "Xor", "Shl", "Shr", "RemAssign", "AndAssign",
                          "OrAssign", "XorAssign", "ShlAssign", "ShrAssign"}

MkParen(e) == Node("Paren", "", e.t, e.lv, e.q, "", 0, <<e>>)

MkUn(L, op, e) ==
  CASE op \in {"Minus", "Plus", "Not"} ->
         LET s == UnaryConv(e) IN Node("Un", op, s.t, FALSE, "", "", 0, <<s>>)
    [] op = "LNot" ->
         IF L = "cpp" THEN Node("Un", op, "bool", FALSE, "", "", 0, <<ToBool(e)>>)
         ELSE Node("Un", op, "int", FALSE, "", "", 0, <<RV(e)>>)
    [] op \in {"PreInc", "PreDec"} ->
         IF L = "cpp" THEN Node("Un", op, e.t, TRUE, e.q, "", 0, <<e>>)
         ELSE Node("Un", op, e.t, FALSE, "", "", 0, <<e>>)
    [] op \in {"PostInc", "PostDec"} -> Node("Un", op, e.t, FALSE, "", "", 0, <<e>>)

\* The two-step conversion of an operand: promotion, then the common type
ArithConv(t, e) == Conv(t, UnaryConv(e))

MkBin(L, op, l, r) ==
  IF InSeq(op, ShiftOps)
  THEN LET a == UnaryConv(l) b == UnaryConv(r) IN Node("Bin", op, a.t, FALSE, "", "", 0, <<a, b>>)
  ELSE IF IsLogic(op)
  THEN IF L = "cpp" THEN Node("Bin", op, "bool", FALSE, "", "", 0, <<ToBool(l), ToBool(r)>>)
       ELSE Node("Bin", op, "int", FALSE, "", "", 0, <<UnaryConv(l), UnaryConv(r)>>)
  ELSE LET t == Common(OT(l), OT(r))
           rt == IF IsRel(op) THEN IF L = "cpp" THEN "bool" ELSE "int" ELSE t
       IN Node("Bin", op, rt, FALSE, "", "", 0, <<ArithConv(t, l), ArithConv(t, r)>>)

MkAssign(L, op, l, r) ==
  LET rr == CASE op = "Assign" -> Conv(l.t, RV(r))
              [] op \in {"ShlAssign", "ShrAssign"} -> UnaryConv(r)
              [] OTHER -> ArithConv(Common(OT(l), OT(r)), r)
  IN Node("Bin", op, l.t, L = "cpp", IF L = "cpp" THEN l.q ELSE "", "", 0, <<l, rr>>)

MkComma(L, l, r) ==
  IF L = "cpp" THEN Node("Bin", "Comma", r.t, r.lv, r.q, "", 0, <<l, r>>)
  ELSE LET rr == RV(r) IN Node("Bin", "Comma", rr.t, FALSE, "", "", 0, <<RV(l), rr>>)

MkCond(L, c, a, b) ==
  IF L = "cpp"
  THEN IF a.lv /\ b.lv /\ a.t = b.t /\ a.q = b.q
       THEN Node("Cond", "", a.t, TRUE, a.q, "", 0, <<ToBool(c), a, b>>)
       ELSE IF RV(a).t = RV(b).t
            THEN Node("Cond", "", a.t, FALSE, "", "", 0, <<ToBool(c), RV(a), RV(b)>>)
            ELSE LET t == Common(OT(a), OT(b))
                 IN Node("Cond", "", t, FALSE, "", "", 0, <<ToBool(c), ArithConv(t, a), ArithConv(t, b)>>)
  ELSE LET t == Common(OT(a), OT(b))
       IN Node("Cond", "", t, FALSE, "", "", 0, <<UnaryConv(c), ArithConv(t, a), ArithConv(t, b)>>)

\* fn = [v |-> name, t |-> return type, p |-> parameter types]
MkCall(fn, args) ==
  Node("Call", "", fn.t, FALSE, "", fn.v, 0, [i \in 1..Len(args) |-> Conv(fn.p[i], RV(args[i]))])

MkCast(L, t, e) ==
  LET s == RV(e)
  IN IF L = "cpp" THEN Node("Cast", "NoOp", t, FALSE, "", "", 0, <<Conv(t, s)>>)
     ELSE Node("Cast", "C", t, FALSE, "", "", 0, <<s>>)

MkIndex(v, t, i) == Node("Index", "", t, TRUE, "", v, 0, <<RV(i)>>)      \* v[i]
MkMember(v, t, q) == Node("Member", "", t, TRUE, q, v, 0, <<>>)          \* v is "s.f"; q = "bf": bit-field
MkDeref(v, t) == Node("Deref", "", t, TRUE, "", v, 0, <<>>)              \* *v
MkSizeOf(e) == Node("SizeOf", "", "ulong", FALSE, "", "", SizeOfType(e.t), <<e>>)

(* A context: any other construct of the language, given by its text v, in which #1, #2, ...       *)
(* stand for the children and @ for the name of the function.  op says what mutation needs to know: *)
(* "k" a constant with value n, "se" has side effects, "" neither.                                  *)
CtxE(op, text, t, n, c) == Node("Ctx", op, t, FALSE, "", text, n, c)
CtxL(text, t, q, c)     == Node("Ctx", "", t, TRUE, q, text, 0, c)
(* What stands inside is needed at compile time, or is never evaluated *)
Frozen(e) == Node("Frozen", "", e.t, e.lv, e.q, "", 0, <<e>>)
(* A braced list (text as for contexts), and an expression with cleanups, which looks like its child *)
MkInit(text, es) == Node("Init", "", "init", FALSE, "", text, 0, es)
MkFull(e) == Node("Full", "", e.t, e.lv, e.q, "", 0, <<e>>)
(* An expression written with a macro: "obj" the macro stands for it, "id" and "snd" it is an argument *)
(* the macro expands to, "paste" a name glued together.  A macro is no node of the syntax tree: what  *)
(* is inside has the extent of the macro's use if it is all of the expansion, and none if it is not.  *)
MkMacro(form, e) == Node("Macro", form, e.t, e.lv, e.q, "", 0, <<e>>)
(* a binary operator that a macro stands for ("op"), or a macro for the left operand and the operator *)
MacroOp(form, e) == [e EXCEPT !.v = form]
MkCastAs(L, form, t, e) == [MkCast(L, t, e) EXCEPT !.op = form]    \* "static": static_cast<t>(e), "fn": t(e)

----------------------------------------------------------------------------
(* Statements *)

St(k, v, n, c) == Node(k, "", "", FALSE, "", v, n, c)

\* an expression statement: its value is discarded
\* (in C++ only naming a volatile object reads it)
RECURSIVE Bare(_)
Bare(e) == IF e.k = "Macro" THEN Bare(e.c[1]) ELSE e
SExpr(L, e) == IF L = "c" \/ (e.q = "volatile" /\ Bare(e).k \in {"Ref", "Index", "Member", "Deref"}) THEN RV(e) ELSE e
SCompound(ss) == St("Compound", "", 0, ss)
SIf(L, c, a) == St("If", "", 0, <<Scalar(L, c), a>>)
SIfElse(L, c, a, b) == St("If", "", 0, <<Scalar(L, c), a, b>>)
SWhile(L, c, b) == St("While", "", 0, <<Scalar(L, c), b>>)
SDo(L, b, c) == St("Do", "", 0, <<b, Scalar(L, c)>>)
\* init is a statement (Decl or expression) or None; c and inc may be None
SFor(L, i, c, inc, b) ==
  St("For", "", 0, <<IF i.t = "" THEN i ELSE SExpr(L, i), IF c.k = "None" THEN c ELSE Scalar(L, c),
                     IF inc.k = "None" THEN inc ELSE SExpr(L, inc), b>>)
SSwitch(L, c, b) == St("Switch", "", 0, <<UnaryConv(c), b>>)
SCase(n, s) == St("Case", "", n, <<s>>)
SCaseOf(n, k, s) == St("Case", "", n, <<s, Frozen(k)>>)
SCaseRange(k1, k2, s) == St("Case", "range", 0, <<s, Frozen(k1), Frozen(k2)>>)
\* statements given by their text: one that can be removed, a declaration, a declaration at file scope
SCtx(text, c) == Node("Ctx", "stmt", "", FALSE, "", text, 0, c)
SCtxDecl(text, c) == Node("Ctx", "decl", "", FALSE, "", text, 0, c)
STop(text, c) == Node("Ctx", "top", "", FALSE, "", text, 0, c)
\* the block of a statement expression: its last statement gives the value
SValueBlock(ss) == St("Compound", "value", 0, ss)
SLambdaBody(ss) == St("Compound", "lambda", 0, ss)
SMacro(s) == St("MacroS", "", 0, <<s>>)    \* a macro that stands for a whole statement
SDefault(s) == St("Default", "", 0, <<s>>)
SReturn(t, e) == St("Return", "", 0, <<Conv(t, RV(e))>>)
SReturnVoid == St("Return", "", 0, <<>>)
SBreak == St("Break", "", 0, <<>>)
SContinue == St("Continue", "", 0, <<>>)
SNull == St("Null", "", 0, <<>>)
SLabel(v, s) == St("Label", v, 0, <<s>>)
SGoto(v) == St("Goto", v, 0, <<>>)
\* v of type t, initialised with e; q qualifier; op = "static" for a static local
SDecl(v, t, q, e) == Node("Decl", "", "", FALSE, q, v, 0, <<Conv(t, RV(e))>>)
SStaticDecl(v, t, q, e) == Node("Decl", "static", "", FALSE, q, v, 0, <<Conv(t, RV(e))>>)

IsExpr(e) == e.t # ""

----------------------------------------------------------------------------
(* Addressing sub-terms: a path is a sequence of child positions *)

RECURSIVE At(_, _)
At(e, p) == IF p = <<>> THEN e ELSE At(e.c[Head(p)], Tail(p))

RECURSIVE Size(_)
Size(e) == LET f[i \in 0..Len(e.c)] == IF i = 0 THEN 1 ELSE f[i-1] + Size(e.c[i]) IN f[Len(e.c)]

----------------------------------------------------------------------------
(* Side effects, as the front end's conservative analysis sees them *)

RECURSIVE SE(_)
SE(e) ==
  CASE e.k = "Call" -> TRUE
    [] e.k = "Bin" /\ IsAssign(e.op) -> TRUE
    [] e.k = "Un" /\ IsIncDec(e.op) -> TRUE
    [] e.k = "ImpCast" /\ e.op = "LValueToRValue" /\ e.c[1].q = "volatile" -> TRUE
    [] e.k \in {"SizeOf", "Frozen"} -> FALSE
    [] e.k = "Ctx" /\ e.op = "se" -> TRUE
    [] OTHER -> \E i \in 1..Len(e.c) : SE(e.c[i])

----------------------------------------------------------------------------
(* Constant evaluation, as far as mutation needs it: is the expression a     *)
(* compile-time constant, and if so is it 0, 1 or -1?  The result is          *)
(* s = "none", "int" with n the value, "flt" with n twice the value, or       *)
(* "big"/"fbig": a constant that is none of 0, 1 and -1.  w says that the     *)
(* value is known although something with an unknown value (and possibly      *)
(* side effects) is evaluated on the way to it, as in a && 0.                 *)

CNone == [s |-> "none", n |-> 0, w |-> FALSE]
CInt(n) == [s |-> "int", n |-> n, w |-> FALSE]
CFlt(n) == [s |-> "flt", n |-> n, w |-> FALSE]
CBig == [s |-> "big", n |-> 0, w |-> FALSE]
CFBig == [s |-> "fbig", n |-> 0, w |-> FALSE]
Taint(b, x) == IF x.s = "none" THEN x ELSE [x EXCEPT !.w = @ \/ b]

IsUnsignedWide(t) == t \in {"uint", "ulong", "ullong"}
WrapTo(t, n) ==
  CASE t = "bool" -> CInt(IF n = 0 THEN 0 ELSE 1)
    [] IsUnsignedWide(t) -> IF n < 0 THEN CBig ELSE CInt(n)
    [] t = "uchar" -> CInt(n % 256)
    [] t = "ushort" -> CInt(n % 65536)
    [] OTHER -> CInt(n)

ConvConst0(t, x) ==
  CASE x.s = "none" -> CNone
    [] x.s = "int" -> IF IsFloat(t) THEN CFlt(2 * x.n) ELSE WrapTo(t, x.n)
    [] x.s = "flt" -> IF IsFloat(t) THEN x
                      ELSE IF IsBool(t) THEN CInt(IF x.n = 0 THEN 0 ELSE 1)
                      ELSE WrapTo(t, IF x.n >= 0 THEN x.n \div 2 ELSE -((-x.n) \div 2))
    [] x.s = "big" -> IF IsFloat(t) THEN CFBig ELSE IF IsBool(t) THEN CInt(1) ELSE CBig
    [] OTHER -> IF IsFloat(t) THEN CFBig ELSE IF IsBool(t) THEN CInt(1) ELSE CBig

ConvConst(t, x) == Taint(x.w, ConvConst0(t, x))

Truth(b) == CInt(IF b THEN 1 ELSE 0)
IsNum(x) == x.s \in {"int", "flt"}
NonZero(x) == IF IsNum(x) THEN x.n # 0 ELSE TRUE

\* division truncating towards zero (TLA+ \div floors)
TDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
              IN IF (a < 0) = (b < 0) THEN q ELSE -q
TRem(a, b) == a - b * TDiv(a, b)

Bit(n, i) == ((n \div (2^i)) % 2) = 1          \* \div floors, so this is two's complement
BitOp(op, a, b) ==
  LET m == IF a < -128 \/ a > 127 \/ b < -128 \/ b > 127 THEN 16 ELSE 8
      on(i) == CASE op = "And" -> Bit(a, i) /\ Bit(b, i)
                 [] op = "Or" -> Bit(a, i) \/ Bit(b, i)
                 [] op = "Xor" -> Bit(a, i) # Bit(b, i)
      f[i \in 0..m] == IF i = 0 THEN 0 ELSE f[i-1] + (IF on(i-1) THEN 2^(i-1) ELSE 0)
  IN IF f[m] >= 2^(m-1) THEN f[m] - 2^m ELSE f[m]

ConstBin(op, t, x, y) ==
  IF ~(IsNum(x) /\ IsNum(y))
  THEN IF IsRel(op) THEN CBig ELSE IF IsFloat(t) THEN CFBig ELSE CBig
  ELSE IF x.s = "flt" \/ y.s = "flt"
  THEN LET a == x.n b == y.n IN
       CASE op = "EQ" -> Truth(a = b) [] op = "NE" -> Truth(a # b) [] op = "GE" -> Truth(a >= b)
         [] op = "GT" -> Truth(a > b) [] op = "LE" -> Truth(a <= b) [] op = "LT" -> Truth(a < b)
         [] op = "Add" -> CFlt(a + b) [] op = "Sub" -> CFlt(a - b)
         [] op = "Mul" -> IF (a * b) % 2 = 0 /\ a * b # 0 THEN CFlt((a * b) \div 2)
                          ELSE IF a * b = 0 THEN CFlt(0) ELSE CFBig
         [] OTHER -> CFBig
  ELSE LET a == x.n b == y.n IN
       CASE op = "EQ" -> Truth(a = b) [] op = "NE" -> Truth(a # b) [] op = "GE" -> Truth(a >= b)
         [] op = "GT" -> Truth(a > b) [] op = "LE" -> Truth(a <= b) [] op = "LT" -> Truth(a < b)
         [] op = "Add" -> WrapTo(t, a + b) [] op = "Sub" -> WrapTo(t, a - b) [] op = "Mul" -> WrapTo(t, a * b)
         [] op = "Div" -> IF b = 0 THEN CNone ELSE WrapTo(t, TDiv(a, b))
         [] op = "Rem" -> IF b = 0 THEN CNone ELSE WrapTo(t, TRem(a, b))
         [] op \in {"And", "Or", "Xor"} -> WrapTo(t, BitOp(op, a, b))
         \* a shift by a negative amount is folded as the opposite shift
         [] op \in {"Shl", "Shr"} ->
              LET left == (op = "Shl") = (b >= 0)
                  m == IF b < 0 THEN -b ELSE b
              IN IF m > 20 THEN CBig ELSE WrapTo(t, IF left THEN a * (2^m) ELSE a \div (2^m))
         [] OTHER -> CNone

RECURSIVE CV(_, _)
CV(L, e) ==
  CASE e.k \in {"IntLit", "BoolLit", "CharLit"} -> CInt(e.n)
    [] e.k = "FltLit" -> CFlt(e.n)
    [] e.k = "Ref" -> IF e.op = "k" /\ IsInt(e.t) THEN CInt(e.n) ELSE CNone
    [] e.k = "SizeOf" -> CInt(e.n)
    [] e.k = "Ctx" -> IF e.op = "k" THEN CInt(e.n) ELSE CNone
    [] e.k \in {"Frozen", "Full", "Macro"} -> CV(L, e.c[1])
    [] e.k = "Paren" -> CV(L, e.c[1])
    [] e.k = "ImpCast" /\ e.op = "LValueToRValue" -> IF e.c[1].q = "volatile" THEN CNone ELSE CV(L, e.c[1])
    [] e.k \in {"ImpCast", "Cast"} -> ConvConst(e.t, CV(L, e.c[1]))
    [] e.k = "Un" ->
         IF IsIncDec(e.op) THEN CNone
         ELSE LET x == CV(L, e.c[1]) IN
              IF x.s = "none" THEN CNone
              ELSE Taint(x.w,
                   CASE e.op = "Plus" -> x
                     [] e.op = "LNot" -> Truth(~NonZero(x))
                     [] e.op = "Minus" -> IF x.s = "flt" THEN IF x.n = 0 THEN CFBig ELSE CFlt(-x.n)
                                          ELSE IF x.s = "int" THEN WrapTo(e.t, -x.n) ELSE x
                     [] e.op = "Not" -> IF x.s = "int" THEN WrapTo(e.t, -x.n - 1) ELSE CBig
                     [] OTHER -> CNone)
    [] e.k = "Cond" ->
         LET x == CV(L, e.c[1]) IN
         IF x.s = "none" THEN CNone ELSE Taint(x.w, IF NonZero(x) THEN CV(L, e.c[2]) ELSE CV(L, e.c[3]))
    [] e.k = "Bin" /\ e.op = "Comma" -> Taint(CV(L, e.c[1]).s = "none", CV(L, e.c[2]))
    [] e.k = "Bin" /\ IsLogic(e.op) ->
         LET x == CV(L, e.c[1])
             decides(z) == z.s # "none" /\ NonZero(z) = (e.op = "LOr")
         IN IF decides(x) THEN Taint(x.w, Truth(e.op = "LOr"))
            ELSE LET y == CV(L, e.c[2]) IN
                 IF y.s = "none" \/ (x.s = "none" /\ ~decides(y)) THEN CNone
                 ELSE Taint(x.s = "none" \/ x.w \/ y.w, Truth(NonZero(y)))
    [] e.k = "Bin" /\ ~IsAssign(e.op) ->
         LET x == CV(L, e.c[1]) y == CV(L, e.c[2]) IN
         IF x.s = "none" \/ y.s = "none" THEN CNone
         ELSE Taint(x.w \/ y.w, ConstBin(e.op, e.t, x, y))
    [] OTHER -> CNone

IsConstInt(L, e)   == IsInt(e.t) /\ CV(L, e).s \in {"int", "big"} /\ ~CV(L, e).w
EqInt(L, e, n)     == IsInt(e.t) /\ CV(L, e) = CInt(n)
EqFlt(L, e, n)     == IsFloat(e.t) /\ CV(L, e) = CFlt(2 * n)
EqNum(L, e, n)     == EqInt(L, e, n) \/ EqFlt(L, e, n)
EqBool(L, e, b)    == IsBool(e.t) /\ CV(L, e).s = "int" /\ CV(L, e).n = IF b THEN 1 ELSE 0
IsConstBool(L, e)  == IsBool(e.t) /\ CV(L, e).s # "none"
=============================================================================
