------------------------------ MODULE Contexts ------------------------------
(***************************************************************************)
(* The constructs around expressions: those whose parts the language needs  *)
(* at compile time or never evaluates (Frozen), and other constructs whose  *)
(* parts are ordinary code.  Every context is tried with several ways of    *)
(* writing the constant it needs, next to ordinary code.                    *)
(***************************************************************************)
EXTENDS Programs

\* ways of writing the constant n (n >= 0)
Ways(L, n) ==
  <<IntLit(n),
    MkBin(L, "Add", IntLit(n), IntLit(0)),
    MkBin(L, "Sub", IntLit(n + 1), IntLit(1)),
    MkBin(L, "Mul", MkParen(MkBin(L, "Sub", IntLit(n + 2), IntLit(2))), IntLit(1)),
    MkBin(L, "Or", IntLit(n), IntLit(0)),
    MkParen(MkCond(L, MkBin(L, "LT", IntLit(1), IntLit(2)), IntLit(n), IntLit(n + 1))),
    MkUn(L, "Minus", MkParen(MkUn(L, "Minus", IntLit(n)))),
    MkUn(L, "Not", MkUn(L, "Not", IntLit(n))),
    MkBin(L, "Add", MkParen(MkBin(L, "LAnd", IntLit(1), IntLit(2))), MkParen(MkBin(L, "Sub", IntLit(n), IntLit(1))))>>

\* ways of writing a condition that holds
Trues(L) ==
  <<MkBin(L, "EQ", MkBin(L, "Add", IntLit(1), IntLit(2)), IntLit(3)),
    MkBin(L, "LAnd", MkBin(L, "LT", IntLit(1), IntLit(2)), IntLit(7)),
    MkUn(L, "LNot", IntLit(0)),
    MkBin(L, "GE", MkSizeOf(MkParen(IntLit(1))), TLit("ulong", 4))>>

Tag(s, i) == s \o "." \o ToString(i)
Each(tag, ks, F(_)) == [i \in 1..Len(ks) |-> Prog("ctx", Tag(tag, i), AB, "int", F(ks[i]))]
I(e) == Conv("int", RV(e))
Idx(L, v, i) == MkIndex(v, "int", MkBin(L, "And", i, IntLit(1)))
Ret(e) == SReturn("int", e)
Asg(L, op, v, e) == SExpr(L, MkAssign(L, op, v, e))

(* C and C++ *)
CommonCtx(L) ==
  LET ab == MkBin(L, "Add", A, B)
      n(tag, v, F(_)) == Each(tag, Ways(L, v), F)
      Y == Ref("y", "int")
      Z(i) == Idx(L, "z", i)
      cpp == L = "cpp"
      Fixed(v) == CtxL("*(const int*)&" \o v, "int", "const", <<>>)      \* what outlives a call is not changed by a call
  IN n("array", 3, LAMBDA k : <<SCtxDecl("int z[#1] = #2;", <<Frozen(k), MkInit("{#1, #2}", <<I(ab), I(B)>>)>>), Ret(Z(A))>>)
  \o n("array2", 2, LAMBDA k : <<SCtxDecl("int z[2][#1] = #2;", <<Frozen(k), MkInit("{#1, #2}", <<MkInit("{#1, #2}", <<I(ab), I(B)>>), MkInit("{#1}", <<I(A)>>)>>)>>), SCtxDecl("int* y = *z;", <<>>), Ret(CtxL("*y", "int", "", <<>>))>>)
  \o n("arraytypedef", 3, LAMBDA k : <<SCtxDecl("typedef int T[#1];", <<Frozen(k)>>), SCtxDecl("T z = #1;", <<MkInit("{#1, #2}", <<I(ab), I(B)>>)>>), Ret(Z(A))>>)
  \o n("sizeofarray", 3, LAMBDA k : <<SDecl("y", "int", "", CtxE("k", "sizeof(int[#1])", "ulong", 12, <<Frozen(k)>>)), Ret(MkBin(L, "Add", Y, A))>>)
  \o n("sizeofvalue", 3, LAMBDA k : <<Ret(MkBin(L, "Add", MkSizeOf(MkParen(k)), A))>>)
  \o n("enum", 3, LAMBDA k : <<SCtxDecl("enum { E1 = #1, E2 };", <<Frozen(k)>>),
                               Ret(MkBin(L, "Add", Conv("int", CtxE("k", "E2", IF cpp THEN "enum" ELSE "int", 4, <<>>)), A))>>)
  \o n("bitwidth", 5, LAMBDA k : <<SCtxDecl("struct { unsigned u : #1; int v; } s = #2;", <<Frozen(k), MkInit("{#1, #2}", <<Conv("uint", IntLit(1)), I(ab)>>)>>), Ret(MkBin(L, "Mul", MkMember("s.v", "int", ""), B))>>)
  \o n("alignas", 16, LAMBDA k : <<SCtxDecl((IF cpp THEN "alignas" ELSE "_Alignas") \o "(#1) int y = #2;", <<Frozen(k), I(ab)>>), Ret(MkBin(L, "Sub", Y, B))>>)
  \o n("alignattr", 16, LAMBDA k : <<SCtxDecl("int y __attribute__((aligned(#1))) = #2;", <<Frozen(k), I(ab)>>), Ret(MkBin(L, "Sub", Y, B))>>)
  \o n("case", 3, LAMBDA k : <<SDecl("x", "int", "", B),
        SSwitch(L, MkBin(L, "And", A, IntLit(3)), SCompound(<<SCaseOf(3, k, Asg(L, "AddAssign", X, IntLit(1))), SBreak, SDefault(Asg(L, "Assign", X, ab))>>)), Ret(X)>>)
  \o n("case2", 1, LAMBDA k : <<SDecl("x", "int", "", B),
        SSwitch(L, MkBin(L, "And", A, IntLit(3)), SCompound(<<SCaseOf(1, k, SCase(2, Call1(L, X))), Asg(L, "AddAssign", X, IntLit(1)), SDefault(SNull)>>)), Ret(X)>>)
  \o n("caserange", 2, LAMBDA k : <<SDecl("x", "int", "", B),
        SSwitch(L, MkBin(L, "And", A, IntLit(3)), SCompound(<<SCaseRange(IntLit(1), k, Call1(L, X)), SDefault(Asg(L, "Assign", X, ab))>>)), Ret(X)>>)
  \o n("offsetof", 3, LAMBDA k : <<Ret(MkBin(L, "Add", CtxE("k", "__builtin_offsetof(struct A8, m[#1])", "ulong", 12, <<k>>), A))>>)
  \o n("returnaddress", 0, LAMBDA k : <<CtxE("se", "(void)__builtin_return_address(#1)", "void", 0, <<Frozen(k)>>), Ret(ab)>>)
  \o n("frameaddress", 0, LAMBDA k : <<CtxE("se", "(void)__builtin_frame_address(#1)", "void", 0, <<Frozen(k)>>), Ret(ab)>>)
  \o Each("staticassert", Trues(L), LAMBDA k : <<SCtxDecl((IF cpp THEN "static_assert" ELSE "_Static_assert") \o "(#1, \"m\");", <<Frozen(k)>>), Ret(ab)>>)
  \o n("top.array", 3, LAMBDA k : <<STop("const int ga@[#1] = {#2, #3};", <<Frozen(k), Frozen(k), Frozen(IntLit(1))>>), Ret(MkBin(L, "Add", [Idx(L, "ga@", A) EXCEPT !.q = "const"], B))>>)
  \o n("top.const", 3, LAMBDA k : <<STop("static const int gk@ = #1;", <<Frozen(k)>>), Ret(MkBin(L, "Add", RefK("gk@", "int", 3), B))>>)
  \o n("top.var", 3, LAMBDA k : <<STop("int gg@ = #1;", <<Frozen(k)>>), Ret(MkBin(L, "Add", Fixed("gg@"), B))>>)
  \o n("top.enum", 3, LAMBDA k : <<STop("enum { E@ = #1 };", <<Frozen(k)>>), Ret(MkBin(L, "Add", Conv("int", CtxE("k", "E@", IF cpp THEN "enum" ELSE "int", 3, <<>>)), A))>>)
  \o n("top.struct", 4, LAMBDA k : <<STop("struct S@ { unsigned u : #1; int m[#2]; int v; };", <<Frozen(k), Frozen(k)>>), SCtxDecl("struct S@ s = {};", <<>>),
                                     Asg(L, "Assign", MkMember("s.v", "int", ""), ab), Ret(MkMember("s.v", "int", ""))>>)
  \o Each("top.staticassert", Trues(L), LAMBDA k : <<STop((IF cpp THEN "static_assert" ELSE "_Static_assert") \o "(#1, \"m\");", <<Frozen(k)>>), Ret(ab)>>)
  \o Each("live", <<
       Ret(MkBin(L, "Add", CtxE("", "(#1)", "int", 0, <<SValueBlock(<<SDecl("y", "int", "", MkBin(L, "Add", B, IntLit(5))), Call1(L, Y), SExpr(L, MkBin(L, "Mul", Y, IntLit(2)))>>)>>), A)),
       Ret(CtxE("", "(#1)", "int", 0, <<SValueBlock(<<MkCall(Se, <<I(A)>>)>>)>>)),
       Ret(CtxL("*(arr + #1)", "int", "", <<MkParen(MkBin(L, "And", A, IntLit(3)))>>)),
       Ret(CtxL("*&arr[#1]", "int", "", <<I(MkBin(L, "And", A, IntLit(3)))>>)),
       Ret(MkBin(L, "Sub", MkMember("(&st)->m", "int", ""), B)),
       Ret(CtxE("se", "(*&se)(#1)", "int", 0, <<I(ab)>>)),
       Ret(CtxE("", "__extension__ #1", "int", 0, <<MkParen(ab)>>)) >>,
       LAMBDA s : <<s>>)
  \o Each("livestmt", <<
       <<SCtx("__asm__ volatile(\"\" : : \"r\"(#1));", <<I(ab)>>), Ret(A)>>,
       <<SDecl("x", "int", "", B), SSwitch(L, A, SCompound(<<SCase(0, Call1(L, X)), SCtx("__attribute__((fallthrough))#1", <<SNull>>), SCase(1, Asg(L, "Assign", X, ab)), SBreak>>)), Ret(X)>> >>,
       LAMBDA s : s)

COnlyCtx(L) ==
  LET ab == MkBin(L, "Add", A, B)
      n(tag, v, F(_)) == Each(tag, Ways(L, v), F)
      Y == Ref("y", "int")
      Fixed(v) == CtxL("*(const int*)&" \o v, "int", "const", <<>>)
      R == RefQ("r", "int", "register")
  IN n("designator", 3, LAMBDA k : <<SCtxDecl("int z[8] = #1;", <<MkInit("{[#1] = #2, [0] = #3}", <<Frozen(k), I(ab), I(B)>>)>>), Ret(MkIndex("z", "int", MkBin(L, "And", A, IntLit(3))))>>)
  \o n("alignof", 3, LAMBDA k : <<Ret(MkBin(L, "Add", CtxE("k", "__alignof__(#1)", "ulong", 4, <<Frozen(k)>>), A))>>)
  \o n("typeof", 3, LAMBDA k : <<SCtxDecl("__typeof__(#1) y = #2;", <<Frozen(k), I(ab)>>), Ret(MkBin(L, "Mul", Y, B))>>)
  \o n("static", 3, LAMBDA k : <<SStaticDecl("y", "int", "", k), Ret(MkBin(L, "Mul", Fixed("y"), B))>>)
  \o n("staticarray", 3, LAMBDA k : <<SCtxDecl("static const int z[#1] = {#2, #3};", <<Frozen(k), Frozen(k), Frozen(k)>>), Ret(MkBin(L, "Mul", [Idx(L, "z", A) EXCEPT !.q = "const"], B))>>)
  \o n("staticstruct", 3, LAMBDA k : <<SCtxDecl("static struct S s = {.m = #1};", <<Frozen(k)>>), Ret(MkBin(L, "Mul", Fixed("s.m"), B))>>)
  \o n("threadlocal", 3, LAMBDA k : <<SCtxDecl("static _Thread_local int y = #1;", <<Frozen(k)>>), Ret(MkBin(L, "Mul", Fixed("y"), B))>>)
  \o Each("live", <<
       <<Ret(CtxL("((int[])#1)[#2]", "int", "", <<MkInit("{#1, #2}", <<I(ab), I(B)>>), I(MkBin(L, "And", A, IntLit(1)))>>))>>,
       <<SDecl("r", "int", "register", A), Asg(L, "AddAssign", R, B), SExpr(L, MkUn(L, "PostInc", R)), Ret(MkBin(L, "Add", R, B))>>,
       <<SCtxDecl("int z[#1];", <<MkBin(L, "Add", MkParen(MkBin(L, "And", A, IntLit(3))), IntLit(1))>>), Ret(MkBin(L, "Add", CtxE("", "sizeof(z)", "ulong", 0, <<>>), B))>>,
       <<Ret(CtxE("", "_Generic(#1, int: #2, default: #3)", "int", 0, <<Frozen(ab), I(MkBin(L, "Mul", A, B)), Frozen(MkBin(L, "Sub", A, B))>>))>>,
       <<SCtxDecl("struct S s = #1;", <<MkInit("{.m = #1}", <<I(ab)>>)>>), Ret(MkMember("s.m", "int", ""))>> >>, LAMBDA s : s)

CppOnlyCtx(L) ==
  LET ab == MkBin(L, "Add", A, B)
      n(tag, v, F(_)) == Each(tag, Ways(L, v), F)
      Y == Ref("y", "int")
      Fixed(v) == CtxL("*(const int*)&" \o v, "int", "const", <<>>)
      YK == RefQ("y", "int", "const")
      Zp == Ref("z", "int")
      call(v, e) == CtxE("se", v, "int", 0, <<I(e)>>)
      lbody(e) == SLambdaBody(<<SReturn("int", e)>>)
  IN n("constexpr", 3, LAMBDA k : <<SCtxDecl("constexpr int y = #1;", <<Frozen(k)>>), Ret(MkBin(L, "Mul", RefK("y", "int", 3), B))>>)
  \o n("staticconstexpr", 3, LAMBDA k : <<SCtxDecl("static constexpr int y = #1;", <<Frozen(k)>>), Ret(MkBin(L, "Mul", RefK("y", "int", 3), B))>>)
  \o n("constinit", 3, LAMBDA k : <<SCtxDecl("static constinit int y = #1;", <<Frozen(k)>>), Ret(MkBin(L, "Mul", Fixed("y"), B))>>)
  \o Each("ifconstexpr", Trues(L), LAMBDA k : <<SDecl("x", "int", "", A), SCtx("if constexpr (#1) #2 else #3", <<Frozen(k), SCompound(<<Asg(L, "Assign", X, ab)>>), SCompound(<<Call1(L, X)>>)>>), Ret(X)>>)
  \o Each("noexcept", <<ab, MkCall(Se, <<I(A)>>), MkParen(MkAssign(L, "Assign", A, B))>>, LAMBDA e : <<SCtxDecl("bool q = noexcept(#1);", <<Frozen(e)>>), Ret(MkBin(L, "Add", Ref("q", "bool"), A))>>)
  \o n("templatefn", 3, LAMBDA k : <<Ret(CtxE("se", "tf<#1>(#2)", "int", 0, <<Frozen(k), I(ab)>>))>>)
  \o n("templatestatic", 3, LAMBDA k : <<Ret(CtxE("se", "Ct<#1>::g(#2)", "int", 0, <<Frozen(k), I(ab)>>))>>)
  \o n("templatevar", 3, LAMBDA k : <<SCtxDecl("Ct<#1> s = #2;", <<Frozen(k), MkInit("{#1}", <<I(ab)>>)>>), Ret(MkBin(L, "Add", MkMember("s.v", "int", ""), B))>>)
  \o n("templatesizeof", 3, LAMBDA k : <<Ret(MkBin(L, "Add", CtxE("k", "sizeof(Ct<#1>)", "ulong", 4, <<Frozen(k)>>), A))>>)
  \o Each("decltype", <<ab, MkParen(MkBin(L, "Mul", A, IntLit(2))), MkCall(Se, <<I(A)>>)>>, LAMBDA e : <<SCtxDecl("decltype(#1) y = #2;", <<Frozen(e), I(ab)>>), Ret(MkBin(L, "Mul", Frozen(RV(Y)), B))>>)
  \o n("newarray", 3, LAMBDA k : <<SCtxDecl("int* z = new int[#1]#2;", <<Frozen(k), MkInit("{#1, #2}", <<I(ab), I(B)>>)>>), Ret(CtxL("*z", "int", "", <<>>))>>)
  \o n("capture", 3, LAMBDA k : <<SCtxDecl("auto l = [y = #1](int z) #2;", <<Frozen(k), lbody(MkBin(L, "Mul", YK, Zp))>>), Ret(call("l(#1)", A))>>)
  \o n("lambdadefault", 3, LAMBDA k : <<SCtxDecl("auto l = [](int z = #1) #2;", <<Frozen(k), lbody(MkBin(L, "Mul", Zp, IntLit(2)))>>), Ret(MkBin(L, "Add", CtxE("k", "l()", "int", 6, <<>>), call("l(#1)", A)))>>)
  \o Each("lambdanoexcept", Trues(L), LAMBDA k : <<SCtxDecl("auto l = [](int z) noexcept(#1) #2;", <<Frozen(k), lbody(MkBin(L, "Mul", Zp, IntLit(2)))>>), Ret(call("l(#1)", A))>>)
  \o n("enumclass", 3, LAMBDA k : <<SCtxDecl("enum class E : int { X = #1, Y };", <<Frozen(k)>>), Ret(MkBin(L, "Add", A, B))>>)
  \o n("localstruct", 3, LAMBDA k : <<SCtxDecl("struct T { int m[#1]; int v = #2; enum { E = #3 }; };", <<Frozen(k), Frozen(k), Frozen(k)>>), SCtxDecl("T s{};", <<>>), Ret(MkBin(L, "Add", MkMember("s.v", "int", ""), B))>>)
  \o n("consteval", 3, LAMBDA k : <<Ret(MkBin(L, "Add", Frozen(CtxE("k", "ce(#1)", "int", 3, <<Frozen(k)>>)), A))>>)
  \o Each("requires", <<ab, MkCall(Se, <<I(A)>>)>>, LAMBDA e : <<Ret(MkBin(L, "Add", CtxE("k", "requires { #1; }", "bool", 1, <<Frozen(e)>>), A))>>)
  \o Each("requires2", <<ab>>, LAMBDA e : <<Ret(MkBin(L, "Add", CtxE("k", "requires(int z) { {#1} -> ItsInt; requires #2; }", "bool", 1, <<Frozen(MkBin(L, "Add", Zp, A)), Frozen(Trues(L)[1])>>), A))>>)
  \o n("top.constexpr", 3, LAMBDA k : <<STop("constexpr int k@ = #1;", <<Frozen(k)>>), Ret(MkBin(L, "Mul", RefK("k@", "int", 3), A))>>)
  \o n("top.template", 3, LAMBDA k : <<STop("template <int N = #1> struct T@ { int m[#2]; static const int c = #3; enum { E = #4 }; int v; };", <<Frozen(k), Frozen(k), Frozen(k), Frozen(k)>>),
                                       SCtxDecl("T@<> s{};", <<>>), Asg(L, "Assign", MkMember("s.v", "int", ""), ab), Ret(MkMember("s.v", "int", ""))>>)
  \o n("top.default", 3, LAMBDA k : <<STop("constexpr int d@(int x, int y = #1) { return #2; }", <<Frozen(k), Frozen(MkBin(L, "Add", X, Y))>>), Ret(CtxE("se", "d@(#1)", "int", 0, <<I(ab)>>))>>)
  \o n("top.constexprfn", 3, LAMBDA k : <<STop("constexpr int c@(int x) { return #1; }", <<Frozen(MkBin(L, "Mul", X, MkParen(k)))>>), Ret(CtxE("se", "c@(#1)", "int", 0, <<I(ab)>>))>>)
  \o n("top.consteval", 3, LAMBDA k : <<STop("consteval int c@(int x) { return #1; }", <<Frozen(MkBin(L, "Mul", X, MkParen(k)))>>), Ret(MkBin(L, "Add", Frozen(CtxE("k", "c@(2)", "int", 6, <<>>)), A))>>)
  \o n("top.member", 3, LAMBDA k : <<STop("struct T@ { unsigned u : #1; int v = #2; alignas(#3 + 1) int w; static constexpr int c = #4; };", <<Frozen(k), Frozen(k), Frozen(MkParen(k)), Frozen(k)>>),
                                     SCtxDecl("T@ s{};", <<>>), Ret(MkBin(L, "Add", MkMember("s.v", "int", ""), B))>>)
  \o n("top.namespace", 3, LAMBDA k : <<STop("namespace n@ { int v = #1; inline const int w = #2; }", <<Frozen(k), Frozen(k)>>), Ret(MkBin(L, "Add", Fixed("n@::v"), B))>>)
  \o n("top.alias", 3, LAMBDA k : <<STop("template <int N> using U@ = int[N + #1];", <<Frozen(MkParen(k))>>), SCtxDecl("U@<2> z = #1;", <<MkInit("{#1, #2}", <<I(ab), I(B)>>)>>), Ret(Idx(L, "z", A))>>)
  \o Each("top.concept", <<Trues(L)[1], Trues(L)[3], Trues(L)[4]>>, LAMBDA k : <<STop("template <class T> concept C@ = #1 && sizeof(T) == 4;", <<Frozen(MkParen(k))>>), STop("constexpr int q@(C@ auto x) { return x; }", <<>>), Ret(CtxE("se", "q@(#1)", "int", 0, <<I(ab)>>))>>)
  \o Each("live", <<
       <<SCtxDecl("auto l = [&](int z) #1;", <<SLambdaBody(<<Asg(L, "AddAssign", A, Zp), SReturn("int", MkBin(L, "Mul", A, B))>>)>>), Ret(call("l(#1)", B))>>,
       <<SCtxDecl("auto l = [=](int z) #1;", <<lbody(MkBin(L, "Mul", RefQ("a", "int", "const"), Zp))>>), Ret(call("l(#1)", B))>>,
       <<Ret(MkFull(CtxE("se", "[&]() #1()", "int", 0, <<lbody(ab)>>)))>>,
       <<SDecl("x", "int", "", B), SCtx("for (int y : arr) #1", <<SCompound(<<Asg(L, "AddAssign", X, MkBin(L, "And", Y, IntLit(7)))>>)>>), Ret(X)>>,
       <<SDecl("x", "int", "", B), SCtx("for (int& y : arr) #1", <<SCompound(<<Asg(L, "AddAssign", X, MkBin(L, "And", Y, IntLit(7))), SExpr(L, MkUn(L, "PreInc", Y))>>)>>), Ret(X)>>,
       <<SDecl("x", "int", "", B), SCtx("try #1 catch (int e) #2", <<SCompound(<<SIf(L, MkBin(L, "GT", A, B), CtxE("se", "throw #1", "void", 0, <<I(ab)>>)), Call1(L, X)>>), SCompound(<<Asg(L, "Assign", X, Ref("e", "int"))>>)>>), Ret(X)>>,
       <<SCtxDecl("auto [u, v] = P2#1;", <<MkInit("{#1, #2}", <<I(ab), I(B)>>)>>), Ret(MkBin(L, "Sub", Ref("u", "int"), Ref("v", "int")))>>,
       <<SDecl("x", "int", "", B), SCtxDecl("int& y = #1;", <<X>>), Asg(L, "AddAssign", Y, A), SExpr(L, MkUn(L, "PostInc", Y)), Ret(MkBin(L, "Mul", X, Y))>>,
       <<SCtxDecl("int y#1;", <<MkInit("{#1}", <<I(ab)>>)>>), Ret(Y)>>,
       <<SCtxDecl("int y(#1);", <<I(ab)>>), Ret(Y)>>,
       <<SCtxDecl("P2 s#1;", <<MkInit("{#1, #2}", <<I(ab), I(B)>>)>>), Ret(MkMember("s.x", "int", ""))>>,
       <<SCtxDecl("P2 s#1;", <<MkInit("{.x = #1, .y = #2}", <<I(ab), I(B)>>)>>), Ret(MkMember("s.y", "int", ""))>>,
       <<Ret(MkCastAs(L, "static", "int", ab))>>, <<Ret(MkCastAs(L, "static", "char", ab))>>, <<Ret(MkCastAs(L, "fn", "long", ab))>>, <<Ret(MkCastAs(L, "fn", "bool", A))>>,
       <<SDecl("x", "int", "", B), SSwitch(L, A, SCompound(<<SCase(0, Call1(L, X)), SCtx("[[fallthrough]]#1", <<SNull>>), SCase(1, Asg(L, "Assign", X, ab)), SBreak>>)), Ret(X)>> >>, LAMBDA s : s)

CtxFam(L) == CommonCtx(L) \o (IF L = "c" THEN COnlyCtx(L) ELSE CppOnlyCtx(L))

BaseFams(L) == <<BinFam(L), AssignFam(L), UnFam(L), ConstFam(L), ConstAssignFam(L), UnConstFam(L),
                LazyFam(L), LazyAssignFam(L), MiscFam(L), StmtFam(L), CtxFam(L)>>
=============================================================================
