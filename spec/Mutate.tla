------------------------------- MODULE Mutate -------------------------------
(***************************************************************************)
(* The mutation of one function as a transition system.  A behaviour picks a *)
(* language and a program, and hands out mutant ids to the program's groups  *)
(* one group at a time, children before parents, first for the regime with   *)
(* every mutant and then for the optimised regime.  The final step emits the *)
(* program together with everything Dredd should say about it; the harness   *)
(* replays these behaviours into the real tool.                             *)
(***************************************************************************)
EXTENDS Encode

CONSTANTS LANG,       \* "c" or "cpp"
          FAMS,       \* the families to explore (indices into AllFams)
          EMIT,       \* TRUE: emit each behaviour for replay
          PART, PARTS \* explore programs whose index is PART modulo PARTS

Fams == TLCEval(AllFams(LANG))

VARIABLES prog,   \* <<family, index>>
          opt,    \* FALSE, then TRUE
          tree,   \* the mutation tree under construction
          groups, \* groups still to be numbered
          given,  \* groups numbered so far: [g, first]
          next,   \* the next free id
          hist    \* the completed numbering of the first regime

vars == <<prog, opt, tree, groups, given, next, hist>>

P == Fams[prog[1]][prog[2]]
Load(p, o) == FnTree(LANG, o, Fams[p[1]][p[2]].body)

Init == /\ prog \in UNION {{<<f, i>> : i \in {j \in 1..Len(Fams[f]) : j % PARTS = PART}} : f \in FAMS}
        /\ opt = FALSE
        /\ tree = Load(prog, FALSE)
        /\ groups = PostOrder(tree)
        /\ given = <<>>
        /\ next = 0
        /\ hist = <<>>

Allocate ==
  /\ groups # <<>>
  /\ given' = Append(given, [g |-> Head(groups), first |-> next])
  /\ next' = next + Len(Head(groups).acts)
  /\ groups' = Tail(groups)
  /\ UNCHANGED <<prog, opt, tree, hist>>

SwitchRegime ==
  /\ groups = <<>> /\ ~opt
  /\ opt' = TRUE
  /\ hist' = <<[given |-> given, tree |-> tree, total |-> next]>>
  /\ tree' = Load(prog, TRUE)
  /\ groups' = PostOrder(tree')
  /\ given' = <<>> /\ next' = 0
  /\ UNCHANGED prog

----------------------------------------------------------------------------
(* Emission *)

Emission ==
  EncHead(LANG, P) \o
  << <<EncGroups(LANG, hist[1].given, P.body), EncGroups(LANG, given, P.body)>>,
     <<EncTree(hist[1].tree), EncTree(tree)>>,
     <<hist[1].total, next>> >>

Finish ==
  /\ groups = <<>> /\ opt /\ Len(hist) = 1
  /\ EMIT => PrintT("@" \o ToJson(Emission))
  /\ hist' = Append(hist, [given |-> given, tree |-> tree, total |-> next])
  /\ UNCHANGED <<prog, opt, tree, groups, given, next>>

Next == Allocate \/ SwitchRegime \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Invariants *)

\* ids are handed out without gaps and without overlap, in order
IdsPartition ==
  /\ \A i \in 1..Len(given) : given[i].first = IF i = 1 THEN 0 ELSE given[i-1].first + Len(given[i-1].g.acts)
  /\ next = IF given = <<>> THEN 0 ELSE given[Len(given)].first + Len(given[Len(given)].g.acts)

\* the outcome of the walk is the numbering in closed form
WalkIsNumbering == (groups = <<>>) => given = Numbering(LANG, opt, P.body) /\ next = Total(LANG, opt, P.body)

\* no group is offered twice
GroupsDistinct ==
  \A i, j \in 1..Len(given) : i # j => <<given[i].g.kind, given[i].g.path>> # <<given[j].g.kind, given[j].g.path>>
ActionsDistinct ==
  \A i \in 1..Len(given) : Cardinality({given[i].g.acts[k] : k \in 1..Len(given[i].g.acts)}) = Len(given[i].g.acts)

\* optimisation only ever removes mutants
OptimisedIsSubset ==
  opt => \A i \in 1..Len(given) : \E j \in 1..Len(hist[1].given) :
           LET a == given[i].g b == hist[1].given[j].g IN
           /\ a.kind = b.kind /\ a.path = b.path
           /\ \A k \in 1..Len(a.acts) : InSeq(a.acts[k], b.acts)

\* pruning the tree loses no group, and the tree nests as the program does
RECURSIVE TreeGroups(_)
TreeGroups(t) == LET sub == {TreeGroups(t.ch[i]) : i \in 1..Len(t.ch)} IN {t.g[i] : i \in 1..Len(t.g)} \cup UNION sub
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
RECURSIVE Nested(_)
Nested(t) == /\ \A i \in 1..Len(t.g), j \in 1..Len(t.ch) : \A h \in TreeGroups(t.ch[j]) : IsPrefixOf(t.g[i].path, h.path)
             /\ \A i \in 1..Len(t.ch) : Nested(t.ch[i])
             /\ \A i, j \in 1..Len(t.ch) : i # j => TreeGroups(t.ch[i]) \cap TreeGroups(t.ch[j]) = {}
TreeMirrorsNesting ==
  given = <<>> => /\ Nested(tree)
                  /\ LET raw == PostOrder(Tree(LANG, opt, P.body, None, <<>>)) IN
                     /\ raw = groups
                     /\ Cardinality(TreeGroups(tree)) = Len(raw)

\* a mutant is always a well-typed edit: increments need a modifiable lvalue, bitwise operators integers
ActionWellTyped(g) ==
  LET e == At(P.body, g.path) IN
  \A k \in 1..Len(g.acts) :
    LET a == g.acts[k] IN
    CASE g.kind = "RemoveStmt" -> TRUE
      [] g.kind = "ReplaceExpr" ->
           /\ a \in {"InsertPreInc", "InsertPreDec"} => e.lv /\ e.q \notin {"const"} \cup NotByReference /\ ~IsBool(e.t)
           /\ a \in {"InsertNot", "InsertLNot", "ZeroInt", "OneInt"} => IsInt(e.t)
           /\ a \in {"ZeroFloat", "OneFloat", "MinusOneFloat"} => IsFloat(e.t)
           /\ a \in {"True", "False"} => IsBool(e.t)
      [] g.kind = "ReplaceUnary" ->
           LET s == e.c[1] IN /\ IsIncDec(a) => s.lv /\ s.q \notin NotByReference
                              /\ a = "Not" => IsInt(s.t)
                              /\ e.lv => (a = "Operand" \/ IsPre(a))
      [] g.kind = "ReplaceBinary" ->
           /\ a \notin {"LHS", "RHS"} => (IsAssign(a) = IsAssign(e.op))
           /\ (a \notin {"LHS", "RHS"} /\ IntOnlyBin(a)) => IsInt(e.c[1].t) /\ IsInt(e.c[2].t)
\* nothing is offered for what is needed at compile time or never evaluated
RECURSIVE UnderFrozen(_, _)
UnderFrozen(e, p) == IF p = <<>> THEN FALSE ELSE e.k = "Frozen" \/ UnderFrozen(e.c[Head(p)], Tail(p))
FrozenUntouched == \A i \in 1..Len(given) : ~UnderFrozen(P.body, given[i].g.path)
WellTyped == \A i \in 1..Len(given) : ActionWellTyped(given[i].g)
=============================================================================
