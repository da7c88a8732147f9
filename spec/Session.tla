------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* One run of the tool over a list of command-line arguments.               *)
(*                                                                          *)
(* The state machine first builds an arbitrary argument list (up to MAXLEN   *)
(* arguments, with repetitions and alternative spellings of a path), then    *)
(* processes it the way the tool does: one file after the other, with an id  *)
(* counter shared by all files.  The invariants relate every reachable state *)
(* to the closed-form meaning of the argument list.                         *)
(***************************************************************************)
EXTENDS Encode

CONSTANTS MAXLEN, EMIT

\* The physical files.  kind: "ok" may be mutated; "err" does not compile; "gone" does not exist;
\* "locked" could be mutated but the result cannot be written back
Files == LET C == TLCEval(SmallFam("c"))   X2 == TLCEval(SmallFam("cpp")) IN TLCEval(<<
  [name |-> "a.c",     L |-> "c",   kind |-> "ok",   how |-> "",          ps |-> <<C[2], C[1]>>],
  [name |-> "b.cc",    L |-> "cpp", kind |-> "ok",   how |-> "",          ps |-> <<X2[1], X2[6], X2[3]>>],
  [name |-> "none.c",  L |-> "c",   kind |-> "ok",   how |-> "nothing",   ps |-> <<>>],
  [name |-> "hdr.c",   L |-> "c",   kind |-> "ok",   how |-> "header",    ps |-> <<C[3]>>],
  [name |-> "sub/a.c", L |-> "c",   kind |-> "ok",   how |-> "",          ps |-> <<C[4]>>],
  [name |-> "bad.c",   L |-> "c",   kind |-> "err",  how |-> "late",      ps |-> <<C[6]>>],
  [name |-> "inc.cc",  L |-> "cpp", kind |-> "err",  how |-> "noinclude", ps |-> <<X2[2]>>],
  [name |-> "hbad.c",  L |-> "c",   kind |-> "err",  how |-> "badheader", ps |-> <<C[5]>>],
  [name |-> "gone.c",  L |-> "c",   kind |-> "gone", how |-> "",          ps |-> <<>>],
  [name |-> "locked.c", L |-> "c",  kind |-> "locked", how |-> "",        ps |-> <<C[3], C[2]>>] >>)
F == 1..10

Kind == <<"ok", "ok", "ok", "ok", "ok", "err", "err", "err", "gone", "locked">>
ASSUME \A f \in 1..Len(Files) : Kind[f] = Files[f].kind

\* the ways in which a file may be named
Names == [f \in F |-> CASE f = 1 -> <<"a.c", "./a.c", "sub/../a.c">>
                        [] f = 6 -> <<"bad.c", "./bad.c">>
                        [] OTHER -> << <<"", "b.cc", "none.c", "hdr.c", "sub/a.c", "", "inc.cc", "hbad.c", "gone.c", "locked.c">>[f] >>]
Args == UNION {{<<f, Names[f][i]>> : i \in 1..Len(Names[f])} : f \in F}

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Count == TLCEval([f \in F |-> [o \in BOOLEAN |->
           Sum([i \in 1..Len(Files[f].ps) |-> Total(Files[f].L, o, Files[f].ps[i].body)])]])

VARIABLES cnt,        \* the number of mutants of each file (fixed)
          args, opt,
          pos,       \* 0 while the list is being built; then the next argument
          seen,      \* files processed so far
          next,      \* next free id
          disk,      \* file -> number of times its text has been replaced
          info,      \* what the mutation information holds: <<file, first id>>
          failed,    \* files reported as failed, in order
          skipped,   \* number of repeat warnings
          sink,      \* where the mutation information was asked to go: a file, nowhere, or one of two places it cannot go
          rc

vars == <<cnt, args, opt, pos, seen, next, disk, info, failed, skipped, sink, rc>>

Init == /\ cnt = Count /\ args = <<>> /\ opt \in BOOLEAN /\ pos = 0 /\ seen = {} /\ next = 0
        /\ disk = [f \in F |-> 0] /\ info = <<>> /\ failed = <<>> /\ skipped = 0 /\ sink = "" /\ rc = -1

AddArg == /\ pos = 0 /\ Len(args) < MAXLEN
          /\ \E a \in Args : args' = Append(args, a)
          /\ UNCHANGED <<cnt, opt, pos, seen, next, disk, info, failed, skipped, sink, rc>>

Start == /\ pos = 0 /\ args # <<>> /\ pos' = 1
         /\ UNCHANGED <<cnt, args, opt, seen, next, disk, info, failed, skipped, sink, rc>>

Cur == args[pos][1]
Step == pos \in 1..Len(args) /\ pos' = pos + 1

SkipRepeat == /\ Step /\ Cur \in seen
              /\ skipped' = skipped + 1
              /\ UNCHANGED <<cnt, args, opt, seen, next, disk, info, failed, sink, rc>>

Missing == /\ Step /\ Kind[Cur] = "gone"
           /\ failed' = Append(failed, Cur)
           /\ UNCHANGED <<cnt, args, opt, seen, next, disk, info, skipped, sink, rc>>

Reject == /\ Step /\ Cur \notin seen /\ Kind[Cur] \in {"err", "locked"}
          /\ seen' = seen \cup {Cur}
          /\ failed' = Append(failed, Cur)
          /\ UNCHANGED <<cnt, args, opt, next, disk, info, skipped, sink, rc>>

Mutate == /\ Step /\ Cur \notin seen /\ Kind[Cur] = "ok"
          /\ seen' = seen \cup {Cur}
          /\ IF cnt[Cur][opt] = 0 THEN UNCHANGED <<next, disk, info>>
             ELSE /\ next' = next + cnt[Cur][opt]
                  /\ disk' = [disk EXCEPT ![Cur] = @ + 1]
                  /\ info' = Append(info, <<Cur, next>>)
          /\ UNCHANGED <<cnt, args, opt, failed, skipped, sink, rc>>

Distinct(s) == LET keep == {i \in 1..Len(s) : \A j \in 1..(i-1) : s[j] # s[i]} IN
               [k \in 1..Cardinality(keep) |-> s[CHOOSE i \in keep : Cardinality({j \in keep : j <= i}) = k]]

Emission == <<[i \in 1..Len(args) |-> <<args[i][1], args[i][2]>>], IF opt THEN 1 ELSE 0,
              rc', Distinct(failed), info, next, skipped, sink'>>

Writable == {"file", "none"}
Finish == /\ pos = Len(args) + 1 /\ rc = -1 /\ args # <<>>
          /\ sink' \in Writable \cup {"full", "nowhere"}
          /\ rc' = IF failed = <<>> /\ sink' \in Writable THEN 0 ELSE 1
          /\ EMIT => PrintT("@" \o ToJson(Emission))
          /\ UNCHANGED <<cnt, args, opt, pos, seen, next, disk, info, failed, skipped>>

Next == AddArg \/ Start \/ SkipRepeat \/ Missing \/ Reject \/ Mutate \/ Finish
Spec == Init /\ [][Next]_vars

ASSUME EMIT => PrintT("@" \o ToJson(<<"files", [f \in F |->
         <<Files[f].name, Files[f].L, Files[f].kind, Files[f].how,
           [i \in 1..Len(Files[f].ps) |-> EncProg(Files[f].L, Files[f].ps[i])], <<Count[f][FALSE], Count[f][TRUE]>> >>]>>))

----------------------------------------------------------------------------
(* The meaning of an argument list, in closed form *)
Named(n) == [i \in 1..n |-> args[i][1]]
IsOk(f) == Kind[f] = "ok" /\ cnt[f][opt] > 0
Good(n) == SelectSeq(Distinct(Named(n)), IsOk)
Done == IF pos = 0 THEN 0 ELSE pos - 1

\* P04: blocks are contiguous, in processing order, and follow one another without a gap
IdsPartitionedByFile ==
  /\ \A i \in 1..Len(info) : info[i][2] = IF i = 1 THEN 0 ELSE info[i-1][2] + cnt[info[i-1][1]][opt]
  /\ next = IF info = <<>> THEN 0 ELSE info[Len(info)][2] + cnt[info[Len(info)][1]][opt]
\* P13: the files mutated are those that would have been without the failing ones, in the same order
FailuresIsolated == [i \in 1..Len(info) |-> info[i][1]] = Good(Done)
FailedUntouched == \A i \in 1..Len(failed) : disk[failed[i]] = 0
ExitStatus == rc # -1 => (rc = 0) = (sink \in Writable /\ \A i \in 1..Len(args) : Kind[args[i][1]] = "ok")
\* P14: no file is rewritten twice, none that was not named is rewritten
AtMostOnce == \A f \in F : disk[f] <= 1
OnlyNamed == \A f \in F : disk[f] = 1 => \E i \in 1..Done : args[i][1] = f
EveryGoodFileMutated == pos = Len(args) + 1 /\ args # <<>> => \A i \in 1..Len(args) : IsOk(args[i][1]) => disk[args[i][1]] = 1
\* P18: the mutants of a file do not depend on its company, only the first id does (a function of what precedes it)
FirstIdIsWhatPrecedes ==
  \A i \in 1..Len(info) : info[i][2] = Sum([j \in 1..(i-1) |-> cnt[info[j][1]][opt]])
=============================================================================
