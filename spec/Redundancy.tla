----------------------------- MODULE Redundancy -----------------------------
(***************************************************************************)
(* Why optimisation may leave a mutant out.  Pure integer expressions are    *)
(* evaluated over a small range of inputs, unmutated and under each of their *)
(* mutants; every mutant that the optimised catalogue drops must be          *)
(* equivalent to the original, or be killed whenever some mutant that is     *)
(* kept is killed.  The rules that promise less than that are listed in      *)
(* Heuristic: for those the tool relies on a published sufficient set rather *)
(* than on a single subsuming mutant.                                       *)
(***************************************************************************)
EXTENDS Encode

CONSTANTS LANG, LO, HI   \* operands range over -LO..HI

D == (-LO)..HI
Undef == 1000000     \* no value

----------------------------------------------------------------------------
(* Evaluation; ed is an edit <<path, node>> or <<>> *)

Trunc(t, v) == IF v = Undef THEN Undef ELSE IF t = "bool" THEN (IF v = 0 THEN 0 ELSE 1) ELSE v
B01(b) == IF b THEN 1 ELSE 0

BinVal(op, x, y) ==
  CASE op = "Add" -> x + y [] op = "Sub" -> x - y [] op = "Mul" -> x * y
    [] op = "Div" -> IF y = 0 THEN Undef ELSE TDiv(x, y)
    [] op = "Rem" -> IF y = 0 THEN Undef ELSE TRem(x, y)
    [] op \in {"And", "Or", "Xor"} -> BitOp(op, x, y)
    [] op = "Shl" -> IF y < 0 \/ y > 8 THEN Undef ELSE x * (2^y)
    [] op = "Shr" -> IF y < 0 \/ y > 8 THEN Undef ELSE x \div (2^y)
    [] op = "EQ" -> B01(x = y) [] op = "NE" -> B01(x # y) [] op = "GE" -> B01(x >= y)
    [] op = "GT" -> B01(x > y) [] op = "LE" -> B01(x <= y) [] op = "LT" -> B01(x < y)

UnVal(op, x) == CASE op = "Minus" -> -x [] op = "Not" -> -x - 1 [] op = "LNot" -> B01(x = 0) [] op = "Plus" -> x

RECURSIVE Ev(_, _, _, _, _)
\* e at path p of the program body, in a state (env gives a and b); the result has the value and the state after
Ev(body, e, p, env, ed) ==
  LET one(f(_)) == LET x == Ev(body, e.c[1], p \o <<1>>, env, ed) IN
                   IF x.v = Undef THEN x ELSE [x EXCEPT !.v = f(x.v)]
      two(f(_, _)) == LET x == Ev(body, e.c[1], p \o <<1>>, env, ed) IN
                      IF x.v = Undef THEN x
                      ELSE LET y == Ev(body, e.c[2], p \o <<2>>, x.env, ed) IN
                           IF y.v = Undef THEN y ELSE [y EXCEPT !.v = f(x.v, y.v)]
      \* the left operand alone may decide
      lazy(stop, v) == LET x == Ev(body, e.c[1], p \o <<1>>, env, ed) IN
                       IF x.v = Undef THEN x ELSE IF (x.v # 0) = stop THEN [x EXCEPT !.v = v]
                       ELSE LET y == Ev(body, e.c[2], p \o <<2>>, x.env, ed) IN
                            IF y.v = Undef THEN y ELSE [y EXCEPT !.v = B01(y.v # 0)]
      val(v) == [v |-> v, env |-> env]
  IN IF ed # <<>> /\ ed[1] = p THEN Ev(body, ed[2], <<-1>>, env, ed)
     ELSE CASE e.k = "Orig" -> Ev(body, At(body, e.c), <<-1>>, env, ed)   \* below the edited node nothing is edited
            [] e.k \in {"IntLit", "BoolLit", "CharLit"} -> val(Trunc(e.t, e.n))
            [] e.k = "Ref" -> val(env[e.v])
            [] e.k = "Paren" -> one(LAMBDA x : x)
            [] e.k \in {"ImpCast", "Cast", "XCast"} -> one(LAMBDA x : Trunc(e.t, x))
            [] e.k = "Then" -> two(LAMBDA x, y : y)
            [] e.k = "LThenR" -> two(LAMBDA x, y : x)
            [] e.k = "Un" /\ IsPre(e.op) ->
                 LET r == At(body, e.c[1].c)       \* only ever inserted before a variable
                     v == env[r.v] + (IF e.op = "PreInc" THEN 1 ELSE -1)
                 IN [v |-> v, env |-> [env EXCEPT ![r.v] = v]]
            [] e.k = "Un" -> one(LAMBDA x : UnVal(e.op, x))
            [] e.k = "Bin" /\ e.op = "LAnd" -> lazy(FALSE, 0)
            [] e.k = "Bin" /\ e.op = "LOr" -> lazy(TRUE, 1)
            [] e.k = "Bin" -> two(LAMBDA x, y : BinVal(e.op, x, y))
            [] OTHER -> val(Undef)

----------------------------------------------------------------------------
(* The programs: return <expression over a and b and small constants> *)

Leaves == <<A, B, IntLit(0), IntLit(1), MkUn(LANG, "Minus", IntLit(1)), IntLit(2)>>
Exprs == LET two(op) == Cross(Leaves, Leaves, LAMBDA x, y : MkBin(LANG, op, x, y))
             un(u) == Map(Leaves, LAMBDA x : MkUn(LANG, u, x))
             unb(u) == Map(BinOps, LAMBDA op : MkUn(LANG, u, MkParen(MkBin(LANG, op, A, B))))
             bib(op) == Map(BinOps, LAMBDA o2 : MkBin(LANG, op, MkParen(MkBin(LANG, o2, A, B)), A))
         IN Flat(Map(BinOps, two)) \o Flat(Map(<<"Minus", "Not", "LNot">>, un))
            \o Flat(Map(<<"Minus", "Not", "LNot">>, unb)) \o Flat(Map(BinOps, bib))
Bodies == TLCEval(LET es == Exprs IN [i \in 1..Len(es) |-> SCompound(<<SReturn(es[i].t, es[i])>>)])

Mutants(body, o) == LET gs == PostOrder(FnTree(LANG, o, body)) IN
  UNION {{<<gs[i].kind, gs[i].path, gs[i].acts[k]>> : k \in 1..Len(gs[i].acts)} : i \in 1..Len(gs)}

Inputs == {[a |-> x, b |-> y] : x \in D, y \in D}
Val(body, env, ed) == Ev(body, body.c[1].c[1], <<1, 1>>, env, ed).v
EditFor(body, m) == <<m[2], EditOf(LANG, Group(m[1], m[2], <<m[3]>>), At(body, m[2]), m[3])>>

----------------------------------------------------------------------------
VARIABLES prog, done
vars == <<prog, done>>

Judge(body) ==
  LET full == Mutants(body, FALSE)
      opt  == Mutants(body, TRUE)
      exprs(s) == {m \in s : m[1] # "RemoveStmt"}
      orig == TLCEval([i \in Inputs |-> Val(body, i, <<>>)])
      live == {i \in Inputs : orig[i] # Undef}
      val  == TLCEval([m \in exprs(full) |-> LET ed == EditFor(body, m) IN [i \in live |-> Val(body, i, ed)]])
      kills(m) == {i \in live : val[m][i] # Undef /\ val[m][i] # orig[i]}
      surv(m)  == {i \in live : val[m][i] = orig[i]}
      K == TLCEval({kills(m) : m \in exprs(opt)} \ {{}})
      redundant(m) == kills(m) = {} \/ \E k \in K : k \cap surv(m) = {}
  IN [subset |-> opt \subseteq full,
      open |-> {m \in exprs(full \ opt) : ~redundant(m)}]

(* The rules that rest on a sufficient set of mutants and not on one subsuming mutant *)
RECURSIVE UnderLogic(_, _)
UnderLogic(body, p) ==      \* only the truth value of the term at p matters
  p # <<>> /\ LET up == At(body, SubSeq(p, 1, Len(p) - 1)) IN
              \/ up.k = "Bin" /\ IsLogic(up.op)
              \/ up.k \in {"ImpCast", "Paren"} /\ UnderLogic(body, SubSeq(p, 1, Len(p) - 1))
RECURSIVE IsComparison(_)
IsComparison(e) == (e.k = "Bin" /\ IsRel(e.op)) \/ (e.k \in {"Paren", "ImpCast"} /\ IsComparison(e.c[1]))

Heuristic(body, m) ==
  LET e == At(body, m[2]) IN
  \/ m[1] = "ReplaceBinary" /\ IsRel(e.op) /\ m[3] \in {"LHS", "RHS"}     \* three mutants suffice for a comparison
  \/ m[1] = "ReplaceUnary" /\ EqNum(LANG, e, -1)                          \* -1 counts as a literal
  \/ m[1] = "ReplaceExpr" /\ m[3] = "InsertMinus" /\ IsComparison(e)      \* a truth value has no sign
  \/ m[1] = "ReplaceExpr" /\ m[3] = "InsertNot" /\ UnderLogic(body, m[2])

Init == prog \in 1..Len(Bodies) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars

EveryDropJustified ==
  done => LET j == Judge(Bodies[prog]) IN j.subset /\ \A m \in j.open : Heuristic(Bodies[prog], m)
=============================================================================
