------------------------------- MODULE Macros -------------------------------
(***************************************************************************)
(* Programs in which expressions, operators and statements come from macros *)
(***************************************************************************)
EXTENDS Contexts

MacroFam(L) ==
  LET p(tag, ss) == Prog("macro", tag, AB, "int", ss)
      ab == MkBin(L, "Add", A, B)
      lt == MkBin(L, "LT", A, B)
      calla == MkCall(Se, <<A>>)
      Y == Ref("y", "long")
      \* what may stand anywhere; <<tag, expression, is it a modifiable lvalue>>
      prim == << <<"var", MkMacro("obj", A)>>, <<"idvar", MkMacro("id", A)>>, <<"snd", MkMacro("snd", A)>>, <<"glob", MkMacro("obj", GL)>>,
                 <<"paste", MkMacro("paste", G)>>, <<"nest", MkMacro("obj", MkMacro("id", A))>>, <<"nest2", MkMacro("id", MkMacro("id", A))>>,
                 <<"nest3", MkMacro("id", MkMacro("obj", GU))>>, <<"vol", MkMacro("obj", GV)>>, <<"arr", MkMacro("obj", Arr(IntLit(2)))>>,
                 <<"fld", MkMacro("id", Fld)>>, <<"bf", MkMacro("obj", Bf)>>, <<"paren.var", MkMacro("obj", MkParen(A))>> >>
      rprim == << <<"one", MkMacro("obj", IntLit(1))>>, <<"zero", MkMacro("id", IntLit(0))>>, <<"lit", MkMacro("obj", TLit("uint", 3))>>,
                  <<"paren", MkMacro("obj", MkParen(ab))>>, <<"idparen", MkMacro("id", MkParen(ab))>>, <<"parenid", MkParen(MkMacro("id", ab))>>,
                  <<"call", MkMacro("obj", calla)>>, <<"idcall", MkMacro("id", calla)>>, <<"callm", MkCall(Se, <<MkMacro("obj", A)>>)>>,
                  <<"callid", MkCall(Se, <<MkMacro("id", MkBin(L, "LT", A, IntLit(2)))>>)>>, <<"rel", MkMacro("obj", MkParen(lt))>>, <<"dbl", MkMacro("obj", FltLit("double", 2))>> >>
      raw == << <<"add", ab>>, <<"lt", lt>>, <<"land", MkBin(L, "LAnd", A, MkCall(Se, <<B>>))>>, <<"neg", MkUn(L, "Minus", A)>>, <<"not", MkUn(L, "LNot", A)>>,
                <<"asg", MkAssign(L, "Assign", G, A)>>, <<"add2", MkAssign(L, "AddAssign", G, A)>>, <<"post", MkUn(L, "PostInc", X)>>, <<"pre", MkUn(L, "PreDec", X)>>,
                <<"cond", MkCond(L, A, B, IntLit(2))>>, <<"cast", MkCast(L, "char", A)>>, <<"size", MkSizeOf(MkParen(A))>>, <<"callb", MkCall(Seb, <<A>>)>>,
                <<"comma", MkParen(MkComma(L, calla, B))>> >>
      vals == prim \o rprim
      forms(m) == <<MkMacro("obj", m[2]), MkMacro("id", m[2]), MkMacro("snd", m[2])>>
      x == SDecl("x", "int", "", B)
      use(m, F(_)) == LET s == F(m[2]) IN s
      ops == <<"Add", "Mul", "LT", "EQ", "LAnd", "LOr", "And", "Shl">>
      okb(op, m) == ~(IntOnlyBin(op) /\ IsFloat(m[2].t))
      lv(m) == m[2].lv
  IN Flat(Map(vals, LAMBDA m : <<
          p("ret." \o m[1], <<SReturn("int", m[2])>>),
          p("arg." \o m[1], <<x, Call1(L, m[2]), SReturn("int", MkUn(L, "LNot", m[2]))>>),
          p("neg." \o m[1], <<SReturn("int", MkUn(L, "Minus", m[2]))>>),
          p("if." \o m[1], <<x, SIf(L, m[2], SExpr(L, MkAssign(L, "AddAssign", X, m[2]))), SReturn("int", X)>>),
          p("cast." \o m[1], <<SDecl("y", "long", "", m[2]), SReturn("int", MkBin(L, "Sub", Y, MkCast(L, "char", m[2])))>>),
          p("idx." \o m[1], <<SReturn("int", Arr(MkBin(L, "And", MkCast(L, "int", m[2]), IntLit(3))))>>),
          p("stmt." \o m[1], <<SExpr(L, m[2]), SReturn("int", MkCond(L, m[2], A, B))>>)>>))
  \o Flat(Cross(vals, ops, LAMBDA m, op : IF ~okb(op, m) THEN <<>> ELSE
          <<p("binl." \o op \o "." \o m[1], <<SReturn("int", MkBin(L, op, m[2], B))>>),
            p("binr." \o op \o "." \o m[1], <<x, SReturn("int", MkBin(L, op, X, m[2]))>>)>>))
  \o Flat(Map(SelectSeq(prim, lv), LAMBDA m : <<
          p("asg." \o m[1], <<SExpr(L, MkAssign(L, "Assign", m[2], B)), SReturn("int", m[2])>>),
          p("add." \o m[1], <<SExpr(L, MkAssign(L, "AddAssign", m[2], B)), SReturn("int", m[2])>>),
          p("inc." \o m[1], <<SExpr(L, MkUn(L, "PostInc", m[2])), SReturn("int", MkUn(L, "PreDec", m[2]))>>)>>))
  \o Flat(Map(raw, LAMBDA r : Flat(Map(forms(r), LAMBDA m : <<
          p("raw.ret." \o m.op \o r[1], <<x, SReturn("int", m)>>),
          p("raw.arg." \o m.op \o r[1], <<x, Call1(L, m), SReturn("int", X)>>),
          p("raw.if." \o m.op \o r[1], <<x, SIfElse(L, m, Call1(L, X), SReturn("int", A)), SReturn("int", X)>>),
          p("raw.stmt." \o m.op \o r[1], <<x, SExpr(L, m), SReturn("int", X)>>),
          p("raw.par." \o m.op \o r[1], <<x, SReturn("int", MkBin(L, "Mul", MkParen(m), IntLit(3)))>>),
          p("raw.while." \o m.op \o r[1], <<x, SWhile(L, m, SCompound(<<Call1(L, A), SBreak>>)), SReturn("int", X)>>)>>))))
  \o Flat(Map(BinOps \o <<"Assign", "AddAssign">>, LAMBDA op :
          LET e(l, r) == IF IsAssign(op) THEN MkAssign(L, op, l, r) ELSE MkBin(L, op, l, r) IN
          <<p("op." \o op, <<SReturn("int", MacroOp("op", e(A, B)))>>),
            p("op2." \o op, <<x, SExpr(L, MkAssign(L, "Assign", X, MkParen(MacroOp("op", e(A, MkCall(Se, <<B>>)))))), SReturn("int", X)>>)>>
          \o (IF IsAssign(op) THEN <<>> ELSE
              <<p("tail." \o op, <<SReturn("int", MacroOp("tail", e(A, B)))>>),
                p("tail2." \o op, <<x, SIf(L, MacroOp("tail", e(MkCall(Se, <<B>>), MkParen(MkBin(L, "Sub", A, IntLit(1))))), Call1(L, MacroOp("tail", e(X, A)))), SReturn("int", X)>>),
                p("two." \o op, <<SReturn("int", MkMacro("two", e(A, B)))>>),
                p("swap." \o op, <<SReturn("int", MkMacro("swap", e(A, B)))>>),
                p("two2." \o op, <<x, SIf(L, MkMacro("two", e(MkCall(Se, <<B>>), A)), Call1(L, MkMacro("swap", e(X, A)))), SReturn("int", X)>>),
                p("half." \o op, <<SReturn("int", MacroOp("half", e(A, B)))>>),
                p("half2." \o op, <<SIf(L, MacroOp("half", e(MkCall(Se, <<B>>), MkParen(MkBin(L, "Sub", A, IntLit(1))))), SReturn("int", A)), SReturn("int", B)>>)>>)))
  \o Map(<< <<"blk", SCompound(<<Call1(L, A), SExpr(L, MkUn(L, "PostInc", X))>>)>>,
            <<"do", SDo(L, SCompound(<<Call1(L, A), SExpr(L, MkAssign(L, "AddAssign", X, A))>>), IntLit(0))>>,
            <<"if", SIf(L, lt, SExpr(L, MkAssign(L, "AddAssign", X, IntLit(1))))>>,
            <<"ife", SIfElse(L, lt, Call1(L, A), Call1(L, B))>>,
            <<"ret", SReturn("int", ab)>>,
            <<"for", SFor(L, SDecl("i", "int", "", IntLit(0)), MkBin(L, "LT", Ref("i", "int"), IntLit(2)), MkUn(L, "PreInc", Ref("i", "int")), Call1(L, X))>> >>,
         LAMBDA s : p("smac." \o s[1], <<x, SMacro(s[2]), Call1(L, X), SIf(L, lt, SCompound(<<SMacro(s[2]), Call1(L, B)>>)), SReturn("int", X)>>))
  \o Map(<<SBreak, SContinue>>, LAMBDA s :
         p("smac." \o s.k, <<x, SFor(L, SDecl("i", "int", "", IntLit(0)), MkBin(L, "LT", Ref("i", "int"), IntLit(3)), MkUn(L, "PreInc", Ref("i", "int")),
                              SCompound(<<SIf(L, MkBin(L, "EQ", Ref("i", "int"), IntLit(1)), SCompound(<<SMacro(s)>>)), Call1(L, X)>>)), SReturn("int", X)>>))

(* Programs the tool is known to handle wrongly (see known_findings.json); only the checks that report them use these. *)
HazardFam(L) ==
  Map(<<"Minus", "Not", "LNot">>, LAMBDA op :
      Prog("hazard", "unary." \o op, AB, "int", <<SReturn("int", MkBin(L, "Add", MacroOp("op", MkUn(L, op, A)), B))>>))
  \o Map(<<"PreInc", "PreDec", "PostInc", "PostDec">>, LAMBDA op :
      Prog("hazard", "unary." \o op, AB, "int", <<SExpr(L, MacroOp("op", MkUn(L, op, A))), SReturn("int", A)>>))
  \o <<Prog("hazard", "strtok", AB, "int",
             <<STop("#include <string.h>", <<>>),
               SCtxDecl("char s_[] = \"1,2,3\"; char *t_ = strtok(s_, \",\");", <<>>),
               SDecl("x", "int", "", A),
               SCtxDecl("t_ = strtok(0, \",\");", <<>>),
               SReturn("int", MkBin(L, "Add", X, Conv("int", CtxL("t_[0]", "char", "", <<>>))))>>)>>

AllFams(L) == BaseFams(L) \o <<MacroFam(L), HazardFam(L)>>
=============================================================================
