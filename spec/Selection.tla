------------------------------ MODULE Selection ------------------------------
(***************************************************************************)
(* How a selection list given in the environment decides which mutants of a  *)
(* program made of two mutated files are active.                            *)
(*                                                                          *)
(* The list is any sequence of up to MAXLEN items drawn from the identifiers *)
(* at the edges of the two files' blocks and of the 64-bit words the enabled *)
(* identifiers are kept in, identifiers outside both blocks, and the empty   *)
(* item.  Each file parses the whole list when it is first asked (ask order  *)
(* is arbitrary), keeping only what lies in its block.                      *)
(***************************************************************************)
EXTENDS Encode

CONSTANTS LANG, MAXLEN, EMIT, OPT

F == {1, 2}
Progs == LET s == TLCEval(SmallFam(LANG)) IN << <<s[1], s[2], s[3], s[4], s[5], s[6]>>, <<s[3], s[6], s[1], s[2]>> >>
RECURSIVE SumTo(_, _)
SumTo(ps, n) == IF n = 0 THEN 0 ELSE SumTo(ps, n - 1) + Total(LANG, OPT, ps[n].body)
CountOf == LET ps == Progs IN [f \in F |-> SumTo(ps[f], Len(ps[f]))]

VARIABLES cnt,     \* mutants per file (fixed)
          list,    \* the items; -1 is an empty item
          ready,   \* the list is complete
          at,      \* per file: number of items parsed, or -1 before the first query
          words,   \* per file: set of <<word, bit>>
          some     \* per file: FALSE once it is known that nothing in the file is enabled
vars == <<cnt, list, ready, at, words, some>>

First(f) == IF f = 1 THEN 0 ELSE cnt[1]
Pool == LET n == cnt[1] m == cnt[1] + cnt[2] IN
  {-1, 0, 1, 63, 64, 127, 128, n - 1, n, n + 1, n + 63, n + 64, m - 1, m, m + 64, 1000000}

Init == /\ cnt = CountOf /\ list = <<>> /\ ready = "no"
        /\ at = [f \in F |-> -1] /\ words = [f \in F |-> {}] /\ some = [f \in F |-> TRUE]

AddItem == /\ ready = "no" /\ Len(list) < MAXLEN
           /\ \E x \in Pool : list' = Append(list, x)
           /\ UNCHANGED <<cnt, ready, at, words, some>>
Launch == /\ ready = "no" /\ ready' = "yes" /\ UNCHANGED <<cnt, list, at, words, some>>

FirstQuery(f) == /\ ready = "yes" /\ at[f] = -1
                 /\ at' = [at EXCEPT ![f] = 0] /\ UNCHANGED <<cnt, list, ready, words, some>>
Parse(f) == /\ at[f] \in 0..(Len(list) - 1)
            /\ LET x == list[at[f] + 1]
                   v == x - First(f)
                   hit == x # -1 /\ v >= 0 /\ v < cnt[f]
               IN words' = IF hit THEN [words EXCEPT ![f] = @ \cup {<<v \div 64, v % 64>>}] ELSE words
            /\ at' = [at EXCEPT ![f] = @ + 1]
            /\ UNCHANGED <<cnt, list, ready, some>>
Settle(f) == /\ at[f] = Len(list) /\ at' = [at EXCEPT ![f] = 1000]
             /\ some' = [some EXCEPT ![f] = words[f] # {}]
             /\ UNCHANGED <<cnt, list, ready, words>>

Local(f) == {list[i] - First(f) : i \in {j \in 1..Len(list) : list[j] # -1}}
Listed(f) == {v \in Local(f) : v >= 0 /\ v < cnt[f]}
Over == \A f \in F : at[f] = 1000
Emit == /\ Over /\ ready = "yes" /\ EMIT
        /\ PrintT("@" \o ToJson(<<list, [f \in F |-> Listed(f)]>>))
        /\ ready' = "done" /\ UNCHANGED <<cnt, list, at, words, some>>

Next == AddItem \/ Launch \/ (\E f \in F : FirstQuery(f) \/ Parse(f) \/ Settle(f)) \/ Emit
Spec == Init /\ [][Next]_vars

ASSUME EMIT => PrintT("@" \o ToJson(<<"files", LET ps == Progs IN [f \in F |-> [i \in 1..Len(ps[f]) |-> EncProg(LANG, ps[f][i])]]>>))

\* the answer a file gives to "is mutant v enabled?"
Answer(f, v) == some[f] /\ <<v \div 64, v % 64>> \in words[f]
\* P03: once a file has parsed the list, it enables what is listed and nothing else
EnabledIsListed == \A f \in F : at[f] = 1000 =>
  /\ \A v \in Listed(f) : Answer(f, v)
  /\ \A w \in words[f] : (w[1] * 64 + w[2]) \in Listed(f)
\* a list and the same list reordered, with repetitions or with foreign ids mean the same: only the set matters
SetSemantics == \A f \in F : at[f] = 1000 => {w[1] * 64 + w[2] : w \in words[f]} = Listed(f)
=============================================================================
