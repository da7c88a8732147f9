------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* The program space that is explored: families of functions, each family   *)
(* enumerated completely within its bounds.  A program is one function; the *)
(* environment it runs in (globals, functions with observable side effects) *)
(* is fixed and listed here.                                                *)
(***************************************************************************)
EXTENDS Catalogue

Param(v, t)     == [v |-> v, t |-> t, q |-> ""]
ParamQ(v, t, q) == [v |-> v, t |-> t, q |-> q]
Prog(fam, tag, ps, ret, ss) == [fam |-> fam, tag |-> tag, ps |-> ps, ret |-> ret, body |-> SCompound(ss)]

Flat(ss) == FlatSeq(ss)
Cross(s1, s2, F(_, _)) ==
  Flat([i \in 1..Len(s1) |-> [j \in 1..Len(s2) |-> F(s1[i], s2[j])]])
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

(* The environment *)
Se  == [v |-> "se",  t |-> "int",    p |-> <<"int">>]       \* log and return the argument
Seb == [v |-> "seb", t |-> "bool",   p |-> <<"int">>]
Sel == [v |-> "sel", t |-> "long",   p |-> <<"long">>]
Seu == [v |-> "seu", t |-> "uint",   p |-> <<"uint">>]
Sed == [v |-> "sed", t |-> "double", p |-> <<"double">>]
Sec == [v |-> "sec", t |-> "char",   p |-> <<"char">>]
Se2 == [v |-> "se2", t |-> "int",    p |-> <<"int", "long">>]
Out == [v |-> "out", t |-> "void",   p |-> <<"long">>]

G    == Ref("g0", "int")
GL   == Ref("g1", "long")
GU   == Ref("g2", "uint")
GD   == Ref("gd", "double")
GB   == Ref("gb", "bool")
GV   == RefQ("gv", "int", "volatile")
A    == Ref("a", "int")
B    == Ref("b", "int")
X    == Ref("x", "int")
Arr(i) == MkIndex("arr", "int", i)
Bf   == MkMember("st.bf", "uint", "bf")
Fld  == MkMember("st.m", "int", "")
Ptr  == MkDeref("p0", "int")
AB   == <<Param("a", "int"), Param("b", "int")>>

BinOps == ArithOps \o BitOps \o LogicOps \o RelOps \o ShiftOps
TypePairs == << <<"int","int">>, <<"uint","uint">>, <<"long","long">>, <<"ulong","ulong">>,
                <<"char","char">>, <<"uchar","uchar">>, <<"short","short">>, <<"bool","bool">>,
                <<"float","float">>, <<"double","double">>,
                <<"int","long">>, <<"uint","int">>, <<"char","int">>, <<"int","double">>,
                <<"float","int">>, <<"bool","int">>, <<"short","ulong">>, <<"float","double">>,
                <<"short","float">>, <<"ushort","char">>, <<"schar","uint">>, <<"llong","uint">>,
                <<"long","ullong">>, <<"bool","double">>, <<"ldouble","int">> >>

OkBin(op, t1, t2) == ~(IntOnlyBin(op) /\ (IsFloat(t1) \/ IsFloat(t2)))

BinFam(L) ==
  LET mk(op, tp) == IF ~OkBin(op, tp[1], tp[2]) THEN <<>>
                    ELSE LET e == MkBin(L, op, Ref("a", tp[1]), Ref("b", tp[2]))
                         IN <<Prog("bin", op \o "." \o tp[1] \o "." \o tp[2],
                                   <<Param("a", tp[1]), Param("b", tp[2])>>, e.t, <<SReturn(e.t, e)>>)>>
  IN Flat(Cross(BinOps, TypePairs, mk))

AssignPairs == << <<"int","int">>, <<"uint","uint">>, <<"long","int">>, <<"char","int">>, <<"short","short">>,
                  <<"uchar","long">>, <<"double","double">>, <<"float","int">>, <<"int","double">>,
                  <<"bool","bool">>, <<"bool","int">>, <<"ulong","char">>, <<"int","bool">>, <<"float","double">> >>

AssignFam(L) ==
  LET mk(op, tp) ==
        IF ~OkBin(op, tp[1], tp[2]) THEN <<>>
        ELSE LET a == Ref("a", tp[1])
                 e == MkAssign(L, op, a, Ref("b", tp[2]))
                 ps == <<Param("a", tp[1]), Param("b", tp[2])>>
             IN <<Prog("assign", op \o "." \o tp[1] \o "." \o tp[2], ps, tp[1],
                       <<SExpr(L, e), SReturn(tp[1], a)>>),
                  Prog("assignv", op \o "." \o tp[1] \o "." \o tp[2], ps, tp[1], <<SReturn(tp[1], e)>>)>>
  IN Flat(Cross(AssignOps, AssignPairs, mk))

UnTypes == <<"int", "uint", "long", "char", "uchar", "short", "ulong", "bool", "float", "double", "llong", "ldouble">>
OkUn(L, op, t) == /\ ~(op = "Not" /\ IsFloat(t))
                  /\ ~(L = "cpp" /\ IsBool(t) /\ IsIncDec(op))

UnFam(L) ==
  LET mk(op, t) ==
        IF ~OkUn(L, op, t) THEN <<>>
        ELSE LET a == Ref("a", t)
                 e == MkUn(L, op, a)
             IN <<Prog("un", op \o "." \o t, <<Param("a", t)>>, e.t, <<SReturn(e.t, e)>>)>>
                \o (IF ~IsIncDec(op) THEN <<>>
                    ELSE <<Prog("unstmt", op \o "." \o t, <<Param("a", t)>>, t, <<SExpr(L, e), SReturn(t, a)>>)>>)
  IN Flat(Cross(UnOps \o <<"Plus">>, UnTypes, mk))

(* Constants as operands *)
NegLit(L, n) == IF n < 0 THEN MkUn(L, "Minus", IntLit(-n)) ELSE IntLit(n)
IntKs(L) == <<IntLit(0), IntLit(1), NegLit(L, -1), IntLit(2)>>
FltKs(L) == <<FltLit("double", 0), FltLit("double", 2), MkUn(L, "Minus", FltLit("double", 2)), FltLit("double", 5)>>
UKs == <<TLit("uint", 0), TLit("uint", 1), TLit("uint", 3)>>
LKs(L) == <<TLit("long", 0), TLit("long", 1), MkUn(L, "Minus", TLit("long", 1))>>

KTag(k) == CASE k.k = "IntLit" -> ToString(k.n) \o k.t
             [] k.k = "FltLit" -> ToString(k.n) \o "h"
             [] k.k = "BoolLit" -> IF k.n = 0 THEN "false" ELSE "true"
             [] k.k = "Un" -> "-" \o ToString(k.c[1].n) \o k.t
             [] OTHER -> k.k

ConstFam(L) ==
  LET one(op, t, k) ==
        LET x == Ref("a", t)
            e1 == MkBin(L, op, x, k)
            e2 == MkBin(L, op, k, x)
            ps == <<Param("a", t)>>
        IN IF ~OkBin(op, t, k.t) THEN <<>>
           ELSE <<Prog("constr", op \o "." \o t \o "." \o KTag(k), ps, e1.t, <<SReturn(e1.t, e1)>>),
                  Prog("constl", op \o "." \o t \o "." \o KTag(k), ps, e2.t, <<SReturn(e2.t, e2)>>)>>
      ints(op) == Flat(Map(IntKs(L), LAMBDA k : one(op, "int", k)))
      uns(op)  == Flat(Map(UKs, LAMBDA k : one(op, "uint", k)))
      lngs(op) == Flat(Map(LKs(L) \o <<IntLit(1), IntLit(0)>>, LAMBDA k : one(op, "long", k)))
      flts(op) == Flat(Map(FltKs(L), LAMBDA k : one(op, "double", k)))
      mixd(op) == Flat(Map(<<IntLit(0), IntLit(1)>>, LAMBDA k : one(op, "double", k)))
      chrs(op) == Flat(Map(<<IntLit(0), IntLit(1)>>, LAMBDA k : one(op, "char", k)))
      both(op) == Cross(IntKs(L), IntKs(L), LAMBDA k1, k2 :
                    LET e == MkBin(L, op, k1, k2)
                    IN Prog("constb", op \o "." \o KTag(k1) \o "." \o KTag(k2), <<Param("a", "int")>>, e.t, <<SReturn(e.t, e)>>))
      \* shifts by and divisions by constants that would be diagnosed as errors are warnings only
      bothf(op) == IF IntOnlyBin(op) THEN <<>>
                   ELSE Cross(FltKs(L), FltKs(L), LAMBDA k1, k2 :
                          LET e == MkBin(L, op, k1, k2)
                          IN Prog("constbf", op \o "." \o KTag(k1) \o "." \o KTag(k2), <<Param("a", "int")>>, e.t, <<SReturn(e.t, e)>>))
      bools(op) == IF L = "c" THEN <<>> ELSE
                     Flat(Map(<<BoolLit(0), BoolLit(1)>>, LAMBDA k : one(op, "bool", k)))
                     \o Cross(<<BoolLit(0), BoolLit(1)>>, <<BoolLit(0), BoolLit(1)>>, LAMBDA k1, k2 :
                          LET e == MkBin(L, op, k1, k2)
                          IN Prog("constbb", op \o "." \o KTag(k1) \o "." \o KTag(k2), <<Param("a", "int")>>, e.t, <<SReturn(e.t, e)>>))
  IN Flat(Map(BinOps, LAMBDA op : ints(op) \o uns(op) \o lngs(op) \o flts(op) \o mixd(op) \o chrs(op) \o both(op) \o bools(op)))
     \o Flat(Map(RelOps \o LogicOps, bothf))

ConstAssignFam(L) ==
  LET one(op, t, k) ==
        IF ~OkBin(op, t, k.t) THEN <<>>
        ELSE LET a == Ref("a", t) IN
             <<Prog("constassign", op \o "." \o t \o "." \o KTag(k), <<Param("a", t)>>, t,
                    <<SExpr(L, MkAssign(L, op, a, k)), SReturn(t, a)>>)>>
  IN Flat(Map(AssignOps, LAMBDA op :
       Flat(Map(IntKs(L), LAMBDA k : one(op, "int", k))) \o one(op, "double", IntLit(1)) \o one(op, "double", FltLit("double", 0))
       \o one(op, "uint", IntLit(1)) \o one(op, "char", IntLit(0)) \o one(op, "long", IntLit(1))))

UnConstFam(L) ==
  LET ks == IntKs(L) \o UKs \o LKs(L) \o (IF L = "cpp" THEN <<BoolLit(0), BoolLit(1)>> ELSE <<>>) \o <<CharLit(L, 65)>>
      one(op, k) == LET e == MkUn(L, op, k) IN Prog("unconst", op \o "." \o KTag(k), <<Param("a", "int")>>, e.t, <<SReturn(e.t, e)>>)
      onef(op, k) == LET e == MkUn(L, op, k) IN Prog("unconstf", op \o "." \o KTag(k), <<Param("a", "int")>>, e.t, <<SReturn(e.t, e)>>)
      val(k) == Prog("constval", KTag(k), <<Param("a", "int")>>, k.t, <<SReturn(k.t, k)>>)
      valto(t, k) == Prog("constvalto", t \o "." \o KTag(k), <<Param("a", "int")>>, t, <<SReturn(t, k)>>)
      cst(t, k) == LET e == MkCast(L, t, k) IN Prog("constcast", t \o "." \o KTag(k), <<Param("a", "int")>>, t, <<SReturn(t, e)>>)
  IN Cross(<<"Minus", "Not", "LNot", "Plus">>, ks, one)
     \o Cross(<<"Minus", "LNot">>, FltKs(L), onef)
     \o Map(ks \o FltKs(L), val)
     \o Cross(<<"int", "uint", "char", "bool", "double", "long", "uchar", "float">>, <<IntLit(0), IntLit(1), NegLit(L, -1), IntLit(7), FltLit("double", 2)>>, valto)
     \o Cross(<<"int", "uint", "bool", "double", "short">>, <<IntLit(0), IntLit(1), NegLit(L, -1), FltLit("double", 0)>>, cst)

(* Operands with side effects: laziness and evaluation order *)
LazyOps == <<"Add", "Sub", "Mul", "LAnd", "LOr", "EQ", "LT", "GE", "Shl", "Shr", "And", "Xor">>
LazyFam(L) ==
  LET pure == A
      call(n) == MkCall(Se, <<IntLit(n)>>)
      calla(v) == MkCall(Se, <<v>>)
      inc == MkParen(MkAssign(L, "AddAssign", G, IntLit(1)))
      rhsinc == MkUn(L, "PostInc", GU)
      ls == <<pure, calla(A), MkParen(MkAssign(L, "Assign", G, A)), MkUn(L, "PreInc", X), IntLit(1)>>
      rs == <<B, calla(B), MkParen(MkAssign(L, "SubAssign", GL, B)), rhsinc, IntLit(0)>>
      one(op, l, r, n) ==
        LET e == MkBin(L, op, l, r)
        IN Prog("lazy", op \o "." \o ToString(n), AB, "long",
                <<SDecl("x", "int", "", A), SDecl("y", e.t, "", e), SReturn("long", MkBin(L, "Add", Ref("y", e.t), MkBin(L, "Mul", X, IntLit(7))))>>)
  IN Flat(Map(LazyOps, LAMBDA op : Flat([i \in 1..Len(ls) |-> [j \in 1..Len(rs) |-> one(op, ls[i], rs[j], 10 * i + j)]])))

LazyAssignFam(L) ==
  LET rs == <<MkCall(Se, <<B>>), MkUn(L, "PostInc", X), MkAssign(L, "Assign", X, B), MkCall(Seb, <<B>>)>>
      ls == <<G, GL, Arr(MkBin(L, "And", A, IntLit(3))), Fld, Ptr>>
      one(op, l, r) == Prog("lazyassign", op, AB, "long",
           <<SDecl("x", "int", "", A), SExpr(L, MkAssign(L, op, l, r)), SReturn("long", MkBin(L, "Add", X, l))>>)
      \* the order of evaluation of the operands is fixed in C++ only
      two(op, r) == Prog("lazyassign2", op, AB, "int",
           <<SDecl("x", "int", "", A), SExpr(L, MkAssign(L, op, Arr(MkBin(L, "And", MkCall(Se, <<A>>), IntLit(3))), r)), SReturn("int", X)>>)
  IN Flat(Map(<<"Assign", "AddAssign", "XorAssign", "ShlAssign">>, LAMBDA op : Cross(ls, rs, LAMBDA l, r : one(op, l, r)) \o (IF L = "c" THEN <<>> ELSE Map(rs \o <<B>>, LAMBDA r : two(op, r)))))

(* Other expression forms *)
MiscFam(L) ==
  LET ret(tag, e) == Prog("misc", tag, AB, e.t, <<SReturn(e.t, e)>>)
      retx(tag, t, e) == Prog("misc", tag, AB, t, <<SDecl("x", "int", "", A), SReturn(t, e)>>)
      vol == Prog("misc", "volatile", AB, "int",
               <<SExpr(L, MkAssign(L, "Assign", GV, A)), SExpr(L, MkAssign(L, "AddAssign", GV, B)),
                 SExpr(L, MkUn(L, "PostInc", GV)), SReturn("int", MkBin(L, "Add", GV, B))>>)
      \* a volatile local and const locals
      loc == Prog("misc", "constlocal", AB, "int",
               <<SDecl("k", "int", "const", IntLit(1)), SDecl("kz", "int", "const", A),
                 SReturn("int", MkBin(L, "Add", MkBin(L, "Mul", RefK("k", "int", 1), A), MkParen(MkBin(L, "Sub", RefQ("kz", "int", "const"), B))))>>)
      loc0 == Prog("misc", "constlocal0", AB, "int",
               <<SDecl("k", "int", "const", IntLit(0)),
                 SReturn("int", MkBin(L, "Add", A, RefK("k", "int", 0)))>>)
      bfs == Prog("misc", "bitfield", AB, "uint",
               <<SExpr(L, MkAssign(L, "Assign", Bf, A)), SExpr(L, MkAssign(L, "AddAssign", Bf, B)),
                 SExpr(L, MkUn(L, "PreInc", Bf)), SReturn("uint", MkBin(L, "Add", Bf, GU))>>)
      ops == <<"Add", "Mul", "LAnd", "LOr", "LT", "EQ", "And", "Shl">>
  IN <<vol, loc, loc0, bfs,
       ret("cond.int", MkCond(L, A, B, IntLit(3))),
       ret("cond.lv", MkCond(L, A, G, Fld)),
       ret("cond.lvp", MkCond(L, MkBin(L, "LT", A, B), A, B)),
       ret("cond.mixed", MkCond(L, MkBin(L, "GT", A, B), A, GD)),
       ret("cond.char", MkCond(L, A, Ref("gc", "char"), Ref("gc", "char"))),
       ret("cond.calls", MkCond(L, MkCall(Se, <<A>>), MkCall(Se, <<B>>), MkCall(Se, <<IntLit(5)>>))),
       ret("cond.bool", MkCond(L, GB, A, B)),
       ret("cond.nested", MkCond(L, A, MkCond(L, B, IntLit(1), IntLit(2)), MkParen(MkCond(L, B, IntLit(3), A)))),
       ret("comma", MkParen(MkComma(L, MkCall(Se, <<A>>), B))),
       ret("comma.assign", MkParen(MkComma(L, MkAssign(L, "Assign", G, A), MkBin(L, "Add", G, B)))),
       ret("comma.pure", MkParen(MkComma(L, A, B))),
       ret("paren", MkParen(MkBin(L, "Add", MkParen(A), MkParen(MkParen(B))))),
       ret("paren.lit", MkParen(IntLit(4))),
       ret("call.2", MkCall(Se2, <<A, B>>)),
       ret("call.conv", MkCall(Se, <<GD>>)),
       ret("call.nest", MkCall(Se, <<MkCall(Se, <<MkBin(L, "Add", A, B)>>)>>)),
       ret("call.char", MkCall(Sec, <<A>>)),
       ret("call.bool", MkCall(Seb, <<A>>)),
       ret("index", Arr(MkBin(L, "And", A, IntLit(7)))),
       ret("index.const", Arr(IntLit(2))),
       ret("index.expr", MkBin(L, "Add", Arr(IntLit(1)), Arr(MkBin(L, "And", B, IntLit(3))))),
       ret("member", MkBin(L, "Sub", Fld, A)),
       ret("member.bf", MkBin(L, "Sub", Bf, GU)),
       ret("deref", MkBin(L, "Mul", Ptr, A)),
       ret("sizeof", MkSizeOf(A)),
       ret("sizeof.expr", MkBin(L, "Add", MkSizeOf(MkParen(MkBin(L, "Add", A, GL))), A)),
       ret("sizeof.char", MkSizeOf(Ref("gc", "char"))),
       ret("sizeof.call", MkSizeOf(MkCall(Se, <<A>>))),
       ret("chain.assign", MkAssign(L, "Assign", G, MkParen(MkAssign(L, "Assign", GL, A)))),
       ret("chain.assign2", MkAssign(L, "AddAssign", G, MkAssign(L, "MulAssign", Fld, A))),
       ret("logic3", MkBin(L, "LOr", MkBin(L, "LAnd", A, B), G)),
       ret("logic4", MkBin(L, "LAnd", MkParen(MkBin(L, "LOr", MkCall(Se, <<A>>), MkCall(Se, <<B>>))), MkUn(L, "LNot", A))),
       ret("logic.rel", MkBin(L, "LAnd", MkBin(L, "LT", A, B), MkBin(L, "NE", A, IntLit(0)))),
       ret("logic.paren", MkBin(L, "LOr", MkParen(MkBin(L, "GE", A, B)), MkParen(MkBin(L, "LAnd", A, MkCall(Seb, <<B>>))))),
       ret("rel.rel", MkBin(L, "EQ", MkBin(L, "LT", A, B), MkBin(L, "GT", A, IntLit(0)))),
       ret("rel.bool", MkBin(L, "EQ", GB, MkBin(L, "GT", A, IntLit(0)))),
       ret("neg.neg", MkUn(L, "Minus", MkParen(MkUn(L, "Minus", A)))),
       ret("not.not", MkUn(L, "LNot", MkUn(L, "LNot", A))),
       ret("not.rel", MkUn(L, "LNot", MkParen(MkBin(L, "LT", A, B)))),
       ret("com.bin", MkUn(L, "Not", MkParen(MkBin(L, "Or", A, B)))),
       ret("plus", MkUn(L, "Plus", A)),
       ret("float.neg", MkUn(L, "Minus", GD)),
       ret("float.rel", MkBin(L, "LT", GD, FltLit("double", 3))),
       ret("float.cond", MkCond(L, GD, A, B)),
       ret("float.logic", MkBin(L, "LAnd", GD, A)),
       ret("fconst", MkBin(L, "Mul", GD, FltLit("float", 2))),
       ret("char.arith", MkBin(L, "Add", Ref("gc", "char"), CharLit(L, 97))),
       ret("char.lit", CharLit(L, 1)),
       ret("pre.in.expr", MkBin(L, "Add", MkUn(L, "PreInc", A), B)),
       ret("post.in.expr", MkBin(L, "Add", MkUn(L, "PostDec", A), B)),
       ret("pre.arr", MkUn(L, "PreDec", Arr(IntLit(1)))),
       ret("post.fld", MkUn(L, "PostInc", Fld)),
       ret("deep", MkBin(L, "Sub", MkBin(L, "Mul", MkParen(MkBin(L, "Add", A, IntLit(1))), B), MkParen(MkBin(L, "Div", A, IntLit(3)))))>>
     \o Map(<<"int", "uint", "char", "long", "bool", "double", "float", "short">>,
            LAMBDA t : ret("cast." \o t, MkCast(L, t, A)))
     \o Map(<<"int", "uint", "char", "bool">>, LAMBDA t : ret("castbin." \o t, MkBin(L, "Add", MkCast(L, t, MkParen(MkBin(L, "Mul", A, B))), B)))
     \o Map(<<"int", "uint", "char", "long", "bool", "double", "float", "short", "ulong">>,
            LAMBDA t : Prog("misc", "retconv." \o t, AB, t, <<SReturn(t, MkBin(L, "Add", A, B))>>))
     \o Map(<<"int", "uint", "char", "long", "bool", "double", "float", "short", "uchar">>,
            LAMBDA t : Prog("misc", "declconv." \o t, AB, "long", <<SDecl("y", t, "", A), SReturn("long", MkBin(L, "Add", Ref("y", t), B))>>))
     \o Cross(ops, ops, LAMBDA o1, o2 : ret("nest." \o o1 \o "." \o o2, MkBin(L, o1, MkParen(MkBin(L, o2, A, B)), MkCall(Se, <<A>>))))
     \o Cross(ops, ops, LAMBDA o1, o2 : ret("nestr." \o o1 \o "." \o o2, MkBin(L, o1, A, MkParen(MkBin(L, o2, MkCall(Se, <<B>>), A)))))
     \o Cross(<<"LNot", "Minus", "Not">>, ops, LAMBDA u, o : ret("unbin." \o u \o "." \o o, MkUn(L, u, MkParen(MkBin(L, o, A, B)))))
     \o Cross(ops, <<"LNot", "Minus", "Not">>, LAMBDA o, u : ret("binun." \o o \o "." \o u, MkBin(L, o, MkUn(L, u, A), MkUn(L, u, MkCall(Se, <<B>>)))))

(* Statements *)
Call1(L, e) == SExpr(L, MkCall(Se, <<e>>))
Inc(L, v) == SExpr(L, MkUn(L, "PostInc", v))
StmtFam(L) ==
  LET p(tag, ss) == Prog("stmt", tag, AB, "int", <<SDecl("x", "int", "", A)>> \o ss \o <<SReturn("int", X)>>)
      pv(tag, ss) == Prog("stmtv", tag, AB, "void", <<SDecl("x", "int", "", A)>> \o ss)
      lt == MkBin(L, "LT", A, B)
      asg(op, v, e) == SExpr(L, MkAssign(L, op, v, e))
      addx(n) == asg("AddAssign", X, IntLit(n))
      \* bounded loops
      i == Ref("i", "int")
      loopc(n) == MkBin(L, "LT", i, IntLit(n))
      decli == SDecl("i", "int", "", IntLit(0))
      pinc == MkUn(L, "PreInc", i)
      bodies == << <<"add", addx(2)>>,
                   <<"blk", SCompound(<<addx(1), Call1(L, X)>>)>>,
                   <<"brk", SCompound(<<addx(1), SIf(L, MkBin(L, "GT", X, IntLit(5)), SBreak), Call1(L, i)>>)>>,
                   <<"cont", SCompound(<<SIf(L, MkBin(L, "EQ", i, IntLit(1)), SContinue), addx(3)>>)>>,
                   <<"null", SNull>>,
                   <<"ret", SCompound(<<SIf(L, MkBin(L, "GT", X, B), SReturn("int", i)), addx(1)>>)>> >>
      for1(bd) == p("for." \o bd[1], <<SFor(L, decli, loopc(3), pinc, bd[2])>>)
      for2(bd) == p("fore." \o bd[1], <<decli, SFor(L, MkAssign(L, "Assign", i, IntLit(0)), loopc(4), MkAssign(L, "AddAssign", i, IntLit(2)), bd[2])>>)
      whl(bd) == p("while." \o bd[1], <<decli, SWhile(L, MkBin(L, "LT", MkUn(L, "PostInc", i), IntLit(3)), bd[2])>>)
      dow(bd) == p("do." \o bd[1], <<decli, SDo(L, bd[2], MkBin(L, "LT", MkUn(L, "PreInc", i), IntLit(3)))>>)
      sw(tag, ss) == p("switch." \o tag, <<SSwitch(L, MkBin(L, "And", A, IntLit(3)), SCompound(ss))>>)
  IN Map(bodies, for1) \o Map(bodies, for2) \o Map(bodies, whl) \o Map(bodies, dow)
     \o <<p("if", <<SIf(L, lt, addx(1))>>),
          p("ifelse", <<SIfElse(L, lt, addx(1), asg("SubAssign", X, IntLit(2)))>>),
          p("ifblk", <<SIfElse(L, A, SCompound(<<addx(1), Call1(L, B)>>), SCompound(<<Call1(L, A), asg("Assign", X, B)>>))>>),
          p("ifnest", <<SIf(L, A, SIfElse(L, B, addx(1), addx(2)))>>),
          p("ifchain", <<SIfElse(L, MkBin(L, "EQ", A, IntLit(0)), addx(1), SIfElse(L, MkBin(L, "EQ", A, IntLit(1)), addx(2), SCompound(<<addx(3)>>)))>>),
          p("ifbool", <<SIf(L, MkBin(L, "LAnd", A, MkBin(L, "GT", B, IntLit(0))), Call1(L, A))>>),
          p("ifnot", <<SIf(L, MkUn(L, "LNot", A), SReturn("int", B))>>),
          p("ifcall", <<SIf(L, MkCall(Seb, <<A>>), addx(4))>>),
          p("ifconst", <<SIf(L, IntLit(1), addx(4)), SIf(L, IntLit(0), addx(5))>>),
          p("ifdbl", <<SIf(L, GD, addx(4))>>),
          p("seq", <<Inc(L, X), addx(1), Call1(L, X), asg("Assign", G, X), SNull, asg("XorAssign", X, B)>>),
          p("blkblk", <<SCompound(<<addx(1), SCompound(<<Call1(L, X)>>)>>), SCompound(<<>>), SCompound(<<SNull>>)>>),
          p("pure", <<SExpr(L, X), SExpr(L, MkBin(L, "Add", A, B)), SExpr(L, IntLit(3)), addx(1)>>),
          p("purecall", <<SExpr(L, MkBin(L, "Add", A, MkCall(Se, <<B>>))), SExpr(L, MkParen(MkCall(Se, <<A>>)))>>),
          p("condstmt", <<SExpr(L, MkCond(L, A, MkCall(Se, <<IntLit(1)>>), MkCall(Se, <<IntLit(2)>>)))>>),
          p("logicstmt", <<SExpr(L, MkBin(L, "LAnd", A, MkCall(Seb, <<B>>)))>>),
          p("commastmt", <<SExpr(L, MkComma(L, MkAssign(L, "Assign", X, B), MkUn(L, "PostInc", X)))>>),
          p("voidcall", <<SExpr(L, MkCall(Out, <<A>>)), SExpr(L, MkCall(Out, <<MkBin(L, "Add", A, B)>>))>>),
          p("label", <<SLabel("lab", addx(1)), SIf(L, MkBin(L, "LT", X, IntLit(3)), Call1(L, X))>>),
          p("goto", <<SIf(L, lt, SGoto("end")), addx(1), Call1(L, X), SLabel("end", Call1(L, B))>>),
          p("gotoblk", <<SIf(L, lt, SCompound(<<addx(2), SGoto("fin")>>)), addx(1), SLabel("fin", SNull)>>),
          p("labelblk", <<SLabel("l1", SCompound(<<addx(1), Call1(L, A)>>)), addx(7)>>),
          p("static", <<SStaticDecl("sx", "int", "const", IntLit(5)), asg("Assign", X, MkBin(L, "Add", RefK("sx", "int", 5), A))>>),
          p("decls", <<SDecl("y", "int", "", MkBin(L, "Mul", A, IntLit(2))), SDecl("z", "long", "", Ref("y", "int")), asg("AddAssign", X, Ref("z", "long"))>>),
          p("nestloop", <<SFor(L, decli, loopc(2), pinc, SFor(L, SDecl("j", "int", "", i), MkBin(L, "LT", Ref("j", "int"), IntLit(2)), MkUn(L, "PostInc", Ref("j", "int")), addx(1)))>>),
          p("forempty", <<decli, SFor(L, None, loopc(2), None, SCompound(<<SExpr(L, pinc), addx(1)>>))>>),
          p("fornocond", <<SFor(L, decli, None, pinc, SCompound(<<SIf(L, MkBin(L, "GT", i, IntLit(2)), SBreak), addx(1)>>))>>),
          p("whiletrue", <<SWhile(L, IntLit(1), SCompound(<<addx(1), SBreak>>))>>),
          p("dofalse", <<SDo(L, SCompound(<<addx(1), Call1(L, A)>>), IntLit(0))>>),
          pv("retvoid", <<SIf(L, lt, SReturnVoid), Call1(L, X)>>),
          pv("retvoid2", <<Call1(L, A), SReturnVoid>>),
          pv("void", <<addx(1), asg("Assign", G, X)>>),
          sw("basic", <<SCase(0, addx(1)), SBreak, SCase(1, Call1(L, A)), SBreak, SDefault(addx(9))>>),
          sw("fall", <<SCase(0, addx(1)), SCase(1, Call1(L, A)), SCase(2, SBreak), SDefault(SCompound(<<addx(9), SBreak>>))>>),
          sw("multi", <<SCase(0, SCase(1, addx(1))), Call1(L, X), SBreak, SCase(2, SDefault(Call1(L, B)))>>),
          sw("blk", <<SCase(0, SCompound(<<addx(1), SBreak>>)), SCase(1, SCompound(<<Call1(L, A), SReturn("int", B)>>)), SDefault(SNull)>>),
          sw("ret", <<SCase(0, SReturn("int", B)), SCase(3, SReturn("int", MkBin(L, "Add", A, B))), SDefault(SBreak)>>),
          sw("expr", <<SCase(0, SExpr(L, MkCall(Se, <<B>>))), Inc(L, X), SDefault(Inc(L, X))>>),
          sw("pure", <<SCase(0, SExpr(L, X)), SCase(1, Inc(L, X))>>),
          p("switchchar", <<SSwitch(L, Ref("gc", "char"), SCompound(<<SCase(1, addx(1)), SDefault(addx(2))>>))>>),
          p("switchloop", <<SFor(L, decli, loopc(3), pinc, SSwitch(L, i, SCompound(<<SCase(0, addx(1)), SContinue, SCase(1, SBreak), SDefault(addx(5))>>)))>>)>>

(* A handful of programs with one mutable place, a few, and many, for the models of whole runs *)
SmallFam(L) ==
  LET p(tag, ss) == Prog("small", tag, AB, "int", ss)
      i == Ref("i", "int")
      asg(op, v, e) == SExpr(L, MkAssign(L, op, v, e))
  IN <<p("loop", <<SDecl("x", "int", "", A),
                   SFor(L, SDecl("i", "int", "", IntLit(0)), MkBin(L, "LT", i, IntLit(3)), MkUn(L, "PreInc", i),
                        SCompound(<<SIf(L, MkBin(L, "GT", X, B), SBreak), asg("AddAssign", X, MkCall(Se, <<i>>))>>)),
                   SReturn("int", X)>>),
       p("arith", <<SReturn("int", MkBin(L, "Sub", MkBin(L, "Mul", MkParen(MkBin(L, "Add", A, B)), G),
                                           MkParen(MkBin(L, "LAnd", A, MkCall(Se, <<B>>)))))>>),
       p("steps", <<SExpr(L, MkUn(L, "PostInc", G)), asg("XorAssign", G, A), asg("Assign", Fld, MkUn(L, "Minus", B)), SReturn("int", G)>>),
       p("plus", <<SReturn("int", MkBin(L, "Add", A, B))>>),
       p("leaf", <<SReturn("int", A)>>),
       p("switch", <<SDecl("x", "int", "", B),
                     SSwitch(L, MkBin(L, "And", A, IntLit(3)),
                             SCompound(<<SCase(0, asg("AddAssign", X, IntLit(1))), SBreak, SCase(1, SExpr(L, MkCall(Se, <<A>>))), SDefault(asg("SubAssign", X, A))>>)),
                     SReturn("int", X)>>)>>

(* Functions of their arguments only, for programs with several threads *)
PureFam(L) ==
  LET p(tag, ss) == Prog("pure", tag, AB, "int", ss)
      i == Ref("i", "int")
      asg(op, v, e) == SExpr(L, MkAssign(L, op, v, e))
  IN <<p("plus", <<SReturn("int", MkBin(L, "Add", A, B))>>),
       p("max", <<SDecl("x", "int", "", B), SIf(L, MkBin(L, "GT", A, B), asg("Assign", X, A)), SReturn("int", X)>>),
       p("sum", <<SDecl("x", "int", "", A),
                  SFor(L, SDecl("i", "int", "", IntLit(0)), MkBin(L, "LT", i, IntLit(3)), MkUn(L, "PreInc", i), asg("AddAssign", X, i)),
                  SReturn("int", MkBin(L, "Sub", X, B))>>),
       p("leaf", <<SReturn("int", A)>>),
       p("one", <<SReturn("int", IntLit(1))>>),
       p("logic", <<SReturn("int", MkBin(L, "LOr", MkParen(MkBin(L, "LAnd", A, B)), MkUn(L, "LNot", A)))>>)>>
=============================================================================
