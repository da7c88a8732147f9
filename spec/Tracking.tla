------------------------------ MODULE Tracking ------------------------------
(***************************************************************************)
(* The run-time half of tracking mode: processes, each with threads that run  *)
(* functions of two files, all appending to one tracking file.               *)
(*                                                                          *)
(* A function has a number of mutable places that it reaches in order.  The    *)
(* first thread of a process to reach a place claims it, reads the            *)
(* environment, opens the tracking file and appends one record; everybody      *)
(* else walks on.  A thread can be suspended before the environment is read    *)
(* and after the file is opened.  A process can be killed at any time; another *)
(* process can be started at any time.                                       *)
(***************************************************************************)
EXTENDS Encode

CONSTANTS LANG, OPT,
          PROCS, THREADS,
          MAXEV,       \* number of events in a behaviour
          SWITCHES,    \* bound on the number of times the running thread changes
          FINE,        \* suspensions also between opening the file and writing
          KILLS,       \* processes may be killed
          EMIT

Prc == 1..PROCS
Thr == 1..THREADS
F == 1..2
Fns == {<<f, k>> : f \in F, k \in 1..2}
\* function 1 of a file returns a constant, function 2 an argument; the places are the groups that the catalogue offers there
Body(tag) == LET ps == PureFam(LANG) IN ps[CHOOSE i \in 1..Len(ps) : ps[i].tag = tag].body
NOffered(tag) == LET gs == PostOrder(FnTree(LANG, OPT, Body(tag))) IN Cardinality({i \in 1..Len(gs) : gs[i].acts # <<>>})
PlaceCounts == <<NOffered("one"), NOffered("leaf")>>
NPlaces(g) == PlaceCounts[g[2]]
Places(g) == {<<g, i>> : i \in 1..NPlaces(g)}

VARIABLES claimed,  \* per process: the places some thread of it has claimed
          log,      \* the tracking file: a sequence of <<process, place>>
          at,       \* per process and thread: Idle, or <<function, place, phase>>
          reached,  \* per process: the places its threads have begun to execute
          alive,    \* per process: "new", "up", "dead"
          used,     \* per process: the threads that have run something
          hist
vars == <<claimed, log, at, reached, alive, used, hist>>

Idle == << <<0, 0>>, 0, "" >>
Init == /\ claimed = [p \in Prc |-> {}] /\ log = <<>>
        /\ at = [p \in Prc |-> [t \in Thr |-> Idle]]
        /\ reached = [p \in Prc |-> {}] /\ alive = [p \in Prc |-> "new"] /\ used = [p \in Prc |-> {}]
        /\ hist = <<>>

Who(e) == <<e[2], e[3]>>
RECURSIVE Changes(_, _)
Changes(h, n) == IF n <= 1 THEN 0 ELSE Changes(h, n - 1) + (IF Who(h[n]) = Who(h[n - 1]) THEN 0 ELSE 1)
Event(e) == /\ Len(hist) < MAXEV /\ hist' = Append(hist, e) /\ Changes(hist', Len(hist')) <= SWITCHES
Fresh(p, t) == /\ p > 1 => alive[p - 1] # "new"
               /\ t > 1 => (t - 1) \in used[p]

\* walk on from place i of g: the first place nobody has claimed, or the end
Unclaimed(p, g, i) == {j \in i..NPlaces(g) : <<g, j>> \notin claimed[p]}
Walk(p, t, g, i) ==
  LET free == Unclaimed(p, g, i) IN
  IF free = {} THEN /\ at' = [at EXCEPT ![p][t] = Idle]
                    /\ reached' = [reached EXCEPT ![p] = @ \cup {<<g, j>> : j \in i..NPlaces(g)}]
                    /\ UNCHANGED claimed
  ELSE LET j == CHOOSE x \in free : \A y \in free : x <= y IN
       /\ at' = [at EXCEPT ![p][t] = <<g, j, "env">>]
       /\ claimed' = [claimed EXCEPT ![p] = @ \cup {<<g, j>>}]
       /\ reached' = [reached EXCEPT ![p] = @ \cup {<<g, x>> : x \in i..j}]

Begin(p, t, g) ==
  /\ alive[p] # "dead" /\ at[p][t] = Idle /\ Fresh(p, t)
  /\ Event(<<"B", p, t, g>>)
  /\ Walk(p, t, g, 1)
  /\ alive' = [alive EXCEPT ![p] = "up"] /\ used' = [used EXCEPT ![p] = @ \cup {t}]
  /\ UNCHANGED log
Step(p, t) ==
  /\ alive[p] = "up" /\ at[p][t] # Idle
  /\ Event(<<"S", p, t>>)
  /\ IF FINE /\ at[p][t][3] = "env"
     THEN /\ at' = [at EXCEPT ![p][t][3] = "open"] /\ UNCHANGED <<claimed, log, reached>>
     ELSE /\ log' = Append(log, <<p, <<at[p][t][1], at[p][t][2]>> >>)
          /\ Walk(p, t, at[p][t][1], at[p][t][2] + 1)
  /\ UNCHANGED <<alive, used>>
Kill(p) == /\ KILLS /\ alive[p] = "up" /\ Event(<<"K", p, 0>>)
           /\ alive' = [alive EXCEPT ![p] = "dead"]
           /\ UNCHANGED <<claimed, log, at, reached, used>>

Running(p) == alive[p] = "up" /\ \E t \in Thr : at[p][t] # Idle
Over == Len(hist) = MAXEV /\ ~\E p \in Prc : Running(p)
Emit == /\ EMIT /\ Over
        /\ PrintT("@" \o ToJson(<<"history", hist, log>>))
        /\ hist' = Append(hist, <<"end", 0, 0>>) /\ UNCHANGED <<claimed, log, at, reached, alive, used>>
Next == (\E p \in Prc, t \in Thr : Step(p, t) \/ \E g \in Fns : Begin(p, t, g)) \/ (\E p \in Prc : Kill(p)) \/ Emit
Spec == Init /\ [][Next]_vars

ASSUME EMIT => PrintT("@" \o ToJson(<<"programs", LET ps == PureFam(LANG) IN [i \in 1..Len(ps) |-> EncProg(LANG, ps[i])]>>))

Recorded(p) == {log[i][2] : i \in {j \in 1..Len(log) : log[j][1] = p}}
\* P09: a process records a place at most once,
AtMostOnce == \A i, j \in 1..Len(log) : log[i] = log[j] => i = j
\* only what it reached,
OnlyReached == \A p \in Prc : Recorded(p) \subseteq reached[p]
\* everything it reached, once its threads are at rest,
AllReached == \A p \in Prc : (\A t \in Thr : at[p][t] = Idle) => Recorded(p) = reached[p]
\* and with a single thread everything except the place it is at, whenever it is killed
CrashSafe == \A p \in Prc : used[p] = {1} => Recorded(p) = reached[p] \ (IF at[p][1] = Idle THEN {} ELSE {<<at[p][1][1], at[p][1][2]>>})
\* nothing is ever lost from the file
AppendOnly == [][\A i \in 1..Len(log) : Len(log') >= Len(log) /\ log'[i] = log[i]]_vars
=============================================================================
