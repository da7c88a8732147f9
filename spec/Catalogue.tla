----------------------------- MODULE Catalogue -----------------------------
(***************************************************************************)
(* Which mutants Dredd offers, where, and what each of them means.          *)
(*                                                                          *)
(* A mutant belongs to a group; a group belongs to a node of the program and *)
(* is one of                                                                *)
(*   RemoveStmt      remove a statement of a block                          *)
(*   ReplaceExpr     replace an expression, or insert an operator before it *)
(*   ReplaceUnary    replace a unary operator                               *)
(*   ReplaceBinary   replace a binary operator                              *)
(* The rules are stated per operator, type, value category and language, in  *)
(* both regimes: with every mutant (O = FALSE) and with the redundant ones  *)
(* left out (O = TRUE).                                                     *)
(***************************************************************************)
EXTENDS Lang

\* bit-fields and register variables have no address
NotByReference == {"bf", "register"}

(* Does a term begin, or end, with a name glued together by the preprocessor?  Such text has no place in the file. *)
RECURSIVE StartsGlued(_)
StartsGlued(e) ==
  CASE e.k = "Macro" -> e.op = "paste"
    [] e.k \in {"ImpCast", "Cond"} \/ (e.k = "Bin" /\ e.v # "half") \/ (e.k = "Un" /\ e.op \in {"PostInc", "PostDec"}) -> StartsGlued(e.c[1])
    [] OTHER -> FALSE
RECURSIVE EndsGlued(_)
EndsGlued(e) ==
  CASE e.k = "Macro" -> e.op = "paste"
    [] e.k \in {"ImpCast", "Return", "Cond", "If"} \/ (e.k = "Bin" /\ e.v # "tail") \/ (e.k = "Cast" /\ e.op \in {"C", "NoOp"}) \/ (e.k = "Un" /\ e.op \notin {"PostInc", "PostDec"})
       -> e.c # <<>> /\ EndsGlued(e.c[Len(e.c)])
    [] OTHER -> FALSE
Glued(e) == StartsGlued(e) \/ EndsGlued(e)

SelectOps(s, P(_)) == SelectSeq(s, P)

----------------------------------------------------------------------------
(* Binary operators *)

BinClass(op) ==
  IF InSeq(op, ArithOps) THEN ArithOps
  ELSE IF InSeq(op, AssignOps) THEN AssignOps
  ELSE IF InSeq(op, BitOps) THEN BitOps
  ELSE IF InSeq(op, LogicOps) THEN LogicOps \o <<"EQ", "NE">>
  ELSE IF InSeq(op, RelOps) THEN RelOps
  ELSE ShiftOps

BinCandidates(e) ==
  IF e.op \in {"EQ", "NE"} /\ IsBool(e.c[1].t) THEN BinClass(e.op) \o <<"LAnd", "LOr">>
  ELSE BinClass(e.op)

FloatInvalid(op) == op \in {"Rem", "AndAssign", "OrAssign", "RemAssign", "ShlAssign", "ShrAssign", "XorAssign"}

\* The replacements that are kept for a boolean-valued operator when optimising
KeptFor(op) ==
  CASE op = "LAnd" -> {"EQ"} [] op = "LOr" -> {"NE"}
    [] op = "GT" -> {"GE", "NE"} [] op = "GE" -> {"GT", "EQ"}
    [] op = "LT" -> {"LE", "NE"} [] op = "LE" -> {"LT", "EQ"}
    [] op = "EQ" -> {"LE", "GE"} [] op = "NE" -> {"LT", "GT"}

RedundantBin(L, e, op) ==
  LET l == e.c[1] r == e.c[2] IN
  IF (IsLogic(e.op) \/ IsRel(e.op)) /\ op \notin KeptFor(e.op) THEN TRUE
  ELSE IF EqNum(L, l, 0) /\ EqNum(L, r, 0) /\ op = "Div" THEN FALSE
  ELSE \/ EqNum(L, r, 0) /\ op \in {"Add", "Sub", "Shl", "Shr", "Mul", "Rem"}
       \/ EqNum(L, r, 1) /\ op \in {"Mul", "Div"}
       \/ EqNum(L, l, 0) /\ op \in {"Add", "Shl", "Shr", "Mul", "Rem", "Div"}
       \/ EqNum(L, l, 1) /\ op = "Mul"

BinReplacements(L, O, e) ==
  LET ok(op) == /\ op # e.op
                /\ ~((IsFloat(e.c[1].t) \/ IsFloat(e.c[2].t)) /\ FloatInvalid(op))
                /\ ~(O /\ RedundantBin(L, e, op))
  IN SelectOps(BinCandidates(e), ok)

SmallConst(L, e) == EqNum(L, e, 0) \/ EqNum(L, e, 1) \/ EqNum(L, e, -1)

BinArgs(L, O, e) ==
  IF (O /\ IsRel(e.op)) \/ IsAssign(e.op) THEN <<>>
  ELSE (IF O /\ SmallConst(L, e.c[1]) THEN <<>> ELSE <<"LHS">>)
       \o (IF O /\ SmallConst(L, e.c[2]) THEN <<>> ELSE <<"RHS">>)

\* In C a logical operator offers exactly three mutants: swap, left operand, right operand
BinActions(L, O, e) ==
  IF L = "c" /\ IsLogic(e.op)
  THEN <<IF e.op = "LAnd" THEN "LOr" ELSE "LAnd", "LHS", "RHS">>
  ELSE BinReplacements(L, O, e) \o BinArgs(L, O, e)

BinMutated(L, O, e) ==
  /\ e.k = "Bin" /\ e.op # "Comma" /\ e.v = ""
  /\ ~Glued(e.c[1]) /\ ~Glued(e.c[2])
  /\ e.c[1].t \in Supported /\ e.c[2].t \in Supported
  /\ ~(IsAssign(e.op) /\ e.c[1].q \in NotByReference)
  /\ ~(O /\ EqNum(L, e.c[1], 0) /\ EqNum(L, e.c[2], 1))

----------------------------------------------------------------------------
(* Unary operators *)

IsPre(op)  == op \in {"PreInc", "PreDec"}
IsPost(op) == op \in {"PostInc", "PostDec"}

UnActions(L, O, e) ==
  LET s == e.c[1]
      ok(op) == /\ op # e.op
                /\ ~(~s.lv /\ IsIncDec(op))
                /\ ~(IsPost(e.op) /\ IsPre(op))
                /\ ~(IsPre(e.op) /\ IsPost(op))
                /\ ~(e.lv /\ ~IsPre(op))
                /\ ~(op = "Not" /\ IsFloat(s.t))
                /\ ~(O /\ (\/ (EqNum(L, s, 0) \/ EqNum(L, s, 1)) /\ op \in {"Minus", "LNot"}
                           \/ EqNum(L, s, -1) /\ op = "Minus"))
  IN SelectOps(UnOps, ok)
     \o (IF O /\ e.op \in {"LNot", "Minus", "Not"} THEN <<>> ELSE <<"Operand">>)

UnMutated(L, O, e) ==
  /\ e.k = "Un" /\ e.op # "Plus" /\ e.v = ""
  /\ ~Glued(e.c[1])
  /\ e.c[1].t \in Supported
  /\ ~(IsIncDec(e.op) /\ e.c[1].q \in NotByReference)
  /\ ~(O /\ e.op = "Minus" /\ EqNum(L, e.c[1], 1))
  /\ ~(O /\ e.op = "Not" /\ (EqNum(L, e.c[1], 0) \/ EqNum(L, e.c[1], 1)))

----------------------------------------------------------------------------
(* Expressions.  par is the parent node (an expression or a statement).     *)

LValueMutable(e, par) ==
  /\ e.lv /\ e.q # "const" /\ ~IsBool(e.t) /\ e.q \notin NotByReference
  /\ par.k = "ImpCast" /\ ~par.lv

\* In C++ an operand of && or || does not get an operator inserted before it when optimising
LogicOperand(L, par) == L = "cpp" /\ par.k = "Bin" /\ IsLogic(par.op)

InsertionRedundant(L, e, par, op) ==
  \/ e.k = "Bin" /\ IsRel(e.op)
  \/ e.k = "Bin" /\ IsLogic(e.op) /\ L = "cpp"
  \/ LogicOperand(L, par)
  \/ CASE op = "Minus" -> \/ EqNum(L, e, 0)
                          \/ IsSigned(e.t) /\ (EqInt(L, e, 1) \/ EqInt(L, e, -1))
                          \/ EqFlt(L, e, 1) \/ EqFlt(L, e, -1)
       [] op = "Not" -> IsSigned(e.t) /\ (EqInt(L, e, 0) \/ EqInt(L, e, -1))
       [] op = "LNot" -> IsConstBool(L, e) \/ IsConstInt(L, e)

\* Replacement of a boolean-valued operator by this constant is redundant
ConstRedundantForOp(L, e, b) ==
  /\ e.k = "Bin"
  /\ \/ e.op = "LAnd" /\ L = "cpp" /\ b
     \/ e.op = "LOr" /\ L = "cpp" /\ ~b
     \/ e.op \in {"GT", "LT", "EQ"} /\ b
     \/ e.op \in {"GE", "LE", "NE"} /\ ~b

Opt1(c, a) == IF c THEN <<a>> ELSE <<>>

ExprActions(L, O, e, par) ==
  IF e.lv THEN <<"InsertPreInc", "InsertPreDec">>
  ELSE Opt1(IsInt(e.t) /\ ~(O /\ InsertionRedundant(L, e, par, "LNot")), "InsertLNot")
    \o Opt1(IsInt(e.t) /\ ~IsBool(e.t) /\ ~(O /\ InsertionRedundant(L, e, par, "Not")), "InsertNot")
    \o Opt1((IsSigned(e.t) \/ IsFloat(e.t)) /\ ~(O /\ InsertionRedundant(L, e, par, "Minus")), "InsertMinus")
    \o Opt1(IsBool(e.t) /\ ~(O /\ (EqBool(L, e, TRUE) \/ ConstRedundantForOp(L, e, TRUE))), "True")
    \o Opt1(IsBool(e.t) /\ ~(O /\ (EqBool(L, e, FALSE) \/ ConstRedundantForOp(L, e, FALSE))), "False")
    \o Opt1(IsInt(e.t) /\ ~IsBool(e.t) /\ ~(O /\ EqInt(L, e, 0)), "ZeroInt")
    \o Opt1(IsInt(e.t) /\ ~IsBool(e.t) /\ ~(O /\ EqInt(L, e, 1)), "OneInt")
    \o Opt1(IsSigned(e.t) /\ ~(O /\ EqInt(L, e, -1)), "MinusOneInt")
    \o Opt1(IsFloat(e.t) /\ ~(O /\ EqFlt(L, e, 0)), "ZeroFloat")
    \o Opt1(IsFloat(e.t) /\ ~(O /\ EqFlt(L, e, 1)), "OneFloat")
    \o Opt1(IsFloat(e.t) /\ ~(O /\ EqFlt(L, e, -1)), "MinusOneFloat")

ExprMutated(L, O, e, par) ==
  /\ e.lv => LValueMutable(e, par)
  /\ O => /\ ~(par.k \in {"ImpCast", "Cast"} /\ par.lv = e.lv /\ par.op # "InInit")
          /\ par.k \notin {"Compound", "Case", "Default"}

----------------------------------------------------------------------------
(* All groups of a node, in the order in which their ids are handed out.    *)
(* Zero-mutant groups are kept (they shape the mutation tree).              *)

Group(kind, path, acts) == [kind |-> kind, path |-> path, acts |-> acts]

GroupsAt(L, O, e, par, path) ==
  IF ~IsExpr(e) \/ e.t \notin Supported \/ (O /\ e.k \in {"Paren", "Full"}) \/ Glued(e) THEN <<>>
  ELSE (IF UnMutated(L, O, e) THEN <<Group("ReplaceUnary", path, UnActions(L, O, e))>> ELSE <<>>)
    \o (IF BinMutated(L, O, e) THEN <<Group("ReplaceBinary", path, BinActions(L, O, e))>> ELSE <<>>)
    \o (IF ExprMutated(L, O, e, par) THEN <<Group("ReplaceExpr", path, ExprActions(L, O, e, par))>> ELSE <<>>)

----------------------------------------------------------------------------
(* Statement removal *)

RECURSIVE Target(_)     \* the statement after any case/default labels, with the steps taken
Target(s) == IF s.k \in {"Case", "Default"}
             THEN LET r == Target(s.c[1]) IN [s |-> r.s, p |-> <<1>> \o r.p, par |-> IF r.p = <<>> THEN s ELSE r.par]
             ELSE [s |-> s, p |-> <<>>, par |-> s]

RECURSIVE Removable(_, _)
Removable(O, s) == IF s.k = "MacroS" THEN Removable(O, s.c[1]) ELSE
                   /\ s.k \notin {"Null", "Decl", "Label"} /\ ~Glued(s)
                   /\ ~(s.k = "Ctx" /\ s.op \in {"decl", "top"})
                   /\ ~(O /\ s.k = "Compound")
Skipped(O, s)   == O /\ IsExpr(s) /\ ~SE(s)

----------------------------------------------------------------------------
(* The mutation tree: one node per statement or expression visited, plus one *)
(* per statement of a block; then empty subtrees are pruned and chains of    *)
(* single children without groups are collapsed.                            *)

TreeNode(g, ch) == [g |-> g, ch |-> ch]

RECURSIVE Tree(_, _, _, _, _)
RECURSIVE InitTree(_, _, _, _, _)
\* an element of a braced list: in C++ its implicit conversions are not visited, to keep narrowing checks out of the way
InitTree(L, O, e, par, path) ==
  IF L = "cpp" /\ e.k = "ImpCast" THEN InitTree(L, O, e.c[1], [e EXCEPT !.op = "InInit"], path \o <<1>>)
  ELSE Tree(L, O, e, par, path)
\* all of a macro's expansion: it can be replaced as a whole, but its parts are out of reach
RECURSIVE WholeTree(_, _, _, _, _)
WholeTree(L, O, e, par, path) ==
  IF e.k = "Macro" THEN WholeTree(L, O, e.c[1], par, path \o <<1>>)
  ELSE TreeNode(SelectSeq(GroupsAt(L, O, e, par, path), LAMBDA g : g.kind = "ReplaceExpr"),
                IF e.k = "ImpCast" THEN <<WholeTree(L, O, e.c[1], e, path \o <<1>>)>> ELSE <<>>)
Tree(L, O, e, par, path) ==
  CASE e.k = "Macro" -> IF e.op = "paste" THEN TreeNode(<<>>, <<>>) ELSE WholeTree(L, O, e.c[1], par, path \o <<1>>)
    [] e.k = "MacroS" -> TreeNode(<<>>, <<>>)
    [] e.k = "SizeOf" -> TreeNode(GroupsAt(L, O, e, par, path), <<>>)
    [] e.k = "Frozen" -> TreeNode(<<>>, <<>>)
    [] e.k = "Init" -> TreeNode(<<>>, [i \in 1..Len(e.c) |-> InitTree(L, O, e.c[i], e, path \o <<i>>)])
    [] e.k = "Decl" /\ e.op = "static" /\ L = "c" -> TreeNode(<<>>, <<>>)
    [] e.k = "Compound" ->
         LET sub(i) ==
               LET tg == Target(e.c[i])
                   sp == path \o <<i>> \o tg.p
                   spar == IF tg.p = <<>> THEN e ELSE tg.par
               IN IF Skipped(O, tg.s) THEN TreeNode(<<>>, <<>>)
                  ELSE TreeNode(IF Removable(O, tg.s) /\ ~(e.v = "value" /\ i = Len(e.c)) THEN <<Group("RemoveStmt", sp, <<"Remove">>)>> ELSE <<>>,
                                <<Tree(L, O, tg.s, spar, sp)>>)
         IN TreeNode(<<>>, [i \in 1..Len(e.c) |-> sub(i)])
    [] OTHER -> TreeNode(GroupsAt(L, O, e, par, path),
                         [i \in 1..Len(e.c) |->
                            IF e.c[i].k = "None" \/ (e.k = "Bin" /\ ((e.v = "half" /\ i = 1) \/ (e.v = "tail" /\ i = 2))) THEN TreeNode(<<>>, <<>>)
                            ELSE Tree(L, O, e.c[i], e, path \o <<i>>)])

RECURSIVE EmptyTree(_)
EmptyTree(t) == t.g = <<>> /\ \A i \in 1..Len(t.ch) : EmptyTree(t.ch[i])

RECURSIVE Prune(_)
Prune(t) == LET keep == SelectSeq(t.ch, LAMBDA x : ~EmptyTree(x))
            IN TreeNode(t.g, [i \in 1..Len(keep) |-> Prune(keep[i])])

RECURSIVE Compress(_)
Compress(t) == IF t.g = <<>> /\ Len(t.ch) = 1 THEN Compress(t.ch[1])
               ELSE TreeNode(t.g, [i \in 1..Len(t.ch) |-> Compress(t.ch[i])])

FnTree(L, O, body) == Compress(Prune(Tree(L, O, body, None, <<>>)))

\* The groups in the order in which ids are handed out: children before parents
RECURSIVE PostOrder(_)
PostOrder(t) == FlatSeq([i \in 1..Len(t.ch) |-> PostOrder(t.ch[i])]) \o t.g

SumLen(gs) == LET f[i \in 0..Len(gs)] == IF i = 0 THEN 0 ELSE f[i-1] + Len(gs[i].acts) IN f[Len(gs)]

----------------------------------------------------------------------------
(* The meaning of a mutant, as an edit of the program.  Orig(p) stands for   *)
(* the sub-term at path p of the program being edited.  The edited program   *)
(* is an ordinary program except for three extra node kinds:                 *)
(*   XCast t e     the value of e converted to t                             *)
(*   Then a b      evaluate a, discard it, then the value of b               *)
(*   LThenR a b    the value of a, then evaluate b and discard it            *)
(* An operand whose evaluation has no side effects is always evaluated; in C *)
(* every operand is, because mutation happens inside a function that         *)
(* receives the operands' values.  In C++ an operand with side effects is    *)
(* evaluated only if the mutated expression needs it.                        *)

Orig(p)       == Node("Orig", "", "", FALSE, "", "", 0, p)
XCast(t, e)   == Node("XCast", "", t, FALSE, "", "", 0, <<e>>)
Then(a, b)    == Node("Then", "", "", FALSE, "", "", 0, <<a, b>>)
LThenR(t, a, b) == Node("LThenR", "", t, FALSE, "", "", 0, <<a, b>>)
RawBin(op, a, b) == Node("Bin", op, "", FALSE, "", "", 0, <<a, b>>)
RawUn(op, a)  == Node("Un", op, "", FALSE, "", "", 0, <<a>>)
Num(n)        == Node("IntLit", "", "int", FALSE, "", "", n, <<>>)
Fnum(n)       == Node("FltLit", "", "double", FALSE, "", "", 2 * n, <<>>)

Eager(L, e) == L = "c" \/ ~SE(e)

ConstAction(a) ==
  CASE a = "True" -> Num(1) [] a = "False" -> Num(0) [] a = "ZeroInt" -> Num(0) [] a = "OneInt" -> Num(1)
    [] a = "MinusOneInt" -> Num(-1) [] a = "ZeroFloat" -> Fnum(0) [] a = "OneFloat" -> Fnum(1)
    [] a = "MinusOneFloat" -> Fnum(-1)

EditExpr(L, e, p, a) ==
  CASE a = "InsertPreInc" -> XCast(e.t, RawUn("PreInc", Orig(p)))
    [] a = "InsertPreDec" -> XCast(e.t, RawUn("PreDec", Orig(p)))
    [] a = "InsertLNot" -> XCast(e.t, RawUn("LNot", Orig(p)))
    [] a = "InsertNot" -> XCast(e.t, RawUn("Not", Orig(p)))
    [] a = "InsertMinus" -> XCast(e.t, RawUn("Minus", Orig(p)))
    [] OTHER -> IF Eager(L, e) THEN Then(Orig(p), XCast(e.t, ConstAction(a))) ELSE XCast(e.t, ConstAction(a))

EditUn(L, e, p, a) ==
  LET s == Orig(p \o <<1>>)
      r == IF a = "Operand" THEN s ELSE RawUn(a, s)
  IN IF e.lv THEN r ELSE XCast(e.t, r)

EditBin(L, e, p, a) ==
  LET l == Orig(p \o <<1>>)
      r == Orig(p \o <<2>>)
  IN IF IsAssign(e.op)
     THEN IF e.lv THEN RawBin(a, l, r) ELSE XCast(e.t, RawBin(a, l, r))
     ELSE IF L = "c" /\ IsLogic(e.op)
     THEN LET unit == IF e.op = "LAnd" THEN Num(1) ELSE Num(0)
          IN CASE a = "LHS" -> XCast(e.t, RawBin(e.op, l, Then(r, unit)))
               [] a = "RHS" -> XCast(e.t, RawBin(e.op, Then(l, unit), r))
               [] OTHER -> XCast(e.t, RawBin(a, l, r))
     ELSE CASE a = "LHS" -> IF Eager(L, e.c[2]) /\ ~IsLogic(e.op) THEN XCast(e.t, LThenR(e.c[1].t, l, r)) ELSE XCast(e.t, l)
            [] a = "RHS" -> IF Eager(L, e.c[1]) THEN XCast(e.t, Then(l, r)) ELSE XCast(e.t, r)
            [] OTHER -> XCast(e.t, RawBin(a, l, r))

EditOf(L, g, e, a) ==
  CASE g.kind = "RemoveStmt" -> St("Null", "", 0, <<>>)
    [] g.kind = "ReplaceExpr" -> EditExpr(L, e, g.path, a)
    [] g.kind = "ReplaceUnary" -> EditUn(L, e, g.path, a)
    [] g.kind = "ReplaceBinary" -> EditBin(L, e, g.path, a)
=============================================================================
