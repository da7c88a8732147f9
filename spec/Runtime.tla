------------------------------- MODULE Runtime -------------------------------
(***************************************************************************)
(* The run-time half of mutation mode: threads of one program, linked from    *)
(* two mutated files, that run functions of those files, and how each thread  *)
(* comes to know which mutants are enabled.                                  *)
(*                                                                          *)
(* The first time a thread runs code of a file it reads the environment and   *)
(* parses the selection list item by item into a set that belongs to that     *)
(* thread and that file.  It can be suspended before the environment is read  *)
(* and before each item; the other threads go on meanwhile.  Threads can end, *)
(* and new ones take their place with nothing known.                          *)
(*                                                                          *)
(* SHARED selects how the position in the list is kept between items: FALSE,  *)
(* in the parsing thread (C++ programs); TRUE, in the one cursor per process   *)
(* that strtok keeps (C programs).                                           *)
(***************************************************************************)
EXTENDS Encode, FiniteSets

CONSTANTS LANG,
          THREADS,     \* number of threads
          MAXEV,       \* number of events in a behaviour
          SWITCHES,    \* bound on the number of times the running thread changes
          FINE,        \* TRUE: suspensions before every item; FALSE: before the environment is read only
          SHARED,
          EXITS,       \* threads may end and be replaced
          EMIT

Thr == 1..THREADS
F == 1..2
\* the mutants of interest: one per file and function (two functions each)
Ids == {<<f, k>> : f \in F, k \in 1..2}
\* the selection lists: the identifiers of interest and a foreign one, in some order
Lists == IF FINE THEN {<< <<1, 1>>, <<1, 2>> >>, << <<1, 2>>, <<1, 1>> >>}
         ELSE {<<>>, << <<1, 1>> >>, << <<2, 2>> >>, << <<2, 1>>, <<1, 2>> >>, << <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>> >>}

Absent == -3
Idle == -2
Env == -1

VARIABLES list,    \* the selection list of this run
          pc,      \* per thread: Absent, Idle, Env, or the number of items asked for so far
          fn,      \* per thread: the function being run, <<file, k>>
          known,   \* per thread and file: the enabled mutants, or Unknown if not asked yet
          acc,     \* per thread: what the parse under way has collected
          cur,     \* the process-wide cursor: <<thread whose copy it points into, position>>
          copies,  \* the threads whose copy of the list is allocated
          garbage, \* the cursor was used after the copy it points into was released
          hist,    \* the events so far
          answers  \* what each completed run of a function did: <<thread, function, mutated?>>
vars == <<list, pc, fn, known, acc, cur, copies, garbage, hist, answers>>

Unknown == {<<0, 0>>}
Init == /\ list \in Lists
        /\ pc = [t \in Thr |-> Absent] /\ fn = [t \in Thr |-> <<0, 0>>]
        /\ known = [t \in Thr |-> [f \in F |-> Unknown]]
        /\ acc = [t \in Thr |-> {}] /\ cur = <<0, 0>> /\ copies = {} /\ garbage = FALSE
        /\ hist = <<>> /\ answers = <<>>

Running == {t \in Thr : pc[t] \notin {Absent, Idle}}
Last == IF hist = <<>> THEN 0 ELSE hist[Len(hist)][2]
RECURSIVE Changes(_, _)
Changes(h, n) == IF n <= 1 THEN 0 ELSE Changes(h, n - 1) + (IF h[n][2] = h[n - 1][2] THEN 0 ELSE 1)
\* threads are interchangeable: thread t may appear only after thread t-1 has
Fresh(t) == t > 1 => \E i \in 1..Len(hist) : hist[i][2] = t - 1
Event(e) == /\ Len(hist) < MAXEV
            /\ hist' = Append(hist, e)
            /\ Changes(hist', Len(hist')) <= SWITCHES

Answer(t, g, ks) == answers' = Append(answers, <<t, g, g \in ks>>)
InFile(f, ids) == {i \in ids : i[1] = f}

\* thread t starts to run function g
Begin(t, g) ==
  /\ pc[t] \in {Absent, Idle} /\ Fresh(t)
  /\ Event(<<"B", t, g>>)
  /\ IF known[t][g[1]] # Unknown
     THEN /\ Answer(t, g, known[t][g[1]])
          /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED fn
     ELSE /\ pc' = [pc EXCEPT ![t] = Env] /\ fn' = [fn EXCEPT ![t] = g] /\ UNCHANGED answers
  /\ UNCHANGED <<list, known, acc, cur, copies, garbage>>

Finish(t, got) ==
  /\ known' = [known EXCEPT ![t][fn[t][1]] = InFile(fn[t][1], got)]
  /\ Answer(t, fn[t], got)
  /\ pc' = [pc EXCEPT ![t] = Idle]
  /\ acc' = [acc EXCEPT ![t] = {}]
  /\ copies' = copies \ {t}

\* the environment is read; without FINE the whole list is parsed at once
ReadEnv(t) ==
  /\ pc[t] = Env /\ Event(<<"S", t>>)
  /\ IF FINE
     THEN /\ pc' = [pc EXCEPT ![t] = 0] /\ copies' = copies \cup {t}
          /\ UNCHANGED <<known, acc, answers>>
     ELSE Finish(t, {list[i] : i \in 1..Len(list)})
  /\ UNCHANGED <<list, fn, cur, garbage>>

\* the next item is taken: the first from the thread's own copy, later ones wherever the cursor is
Item(t) ==
  /\ FINE /\ pc[t] >= 0
  /\ Event(<<"S", t>>)
  /\ LET pos == IF pc[t] = 0 THEN <<t, 1>> ELSE IF SHARED THEN cur ELSE <<t, pc[t] + 1>>
         stale == pos[1] \notin copies
     IN /\ garbage' = (garbage \/ stale)
        /\ IF pos[2] <= Len(list)
           THEN /\ acc' = [acc EXCEPT ![t] = @ \cup {list[pos[2]]}]
                /\ pc' = [pc EXCEPT ![t] = @ + 1]
                /\ cur' = <<pos[1], pos[2] + 1>>
                /\ UNCHANGED <<known, answers, copies>>
           ELSE /\ Finish(t, acc[t]) /\ cur' = pos
  /\ UNCHANGED <<list, fn>>

Exit(t) == /\ EXITS /\ pc[t] = Idle /\ Event(<<"X", t>>)
           /\ pc' = [pc EXCEPT ![t] = Absent]
           /\ known' = [known EXCEPT ![t] = [f \in F |-> Unknown]]
           /\ UNCHANGED <<list, fn, acc, cur, copies, garbage, answers>>

Fns(t) == IF FINE THEN {<<1, 1>>, <<1, 2>>} ELSE Ids
Begun(t) == \E i \in 1..Len(hist) : hist[i][1] = "B" /\ hist[i][2] = t
Next == \/ \E t \in Thr : (FINE => ~Begun(t)) /\ \E g \in Fns(t) : Begin(t, g)
        \/ \E t \in Thr : ReadEnv(t) \/ Item(t) \/ Exit(t)
Done == IF FINE THEN Running = {} /\ \A t \in Thr : Begun(t) ELSE Running = {} /\ Len(hist) = MAXEV
Emit == /\ EMIT /\ Done /\ Last # -1 /\ ~garbage
        /\ PrintT("@" \o ToJson(<<list, hist, answers>>))
        /\ hist' = Append(hist, <<"end", -1>>)
        /\ UNCHANGED <<list, pc, fn, known, acc, cur, copies, garbage, answers>>
Spec == Init /\ [][Next \/ Emit]_vars

ASSUME EMIT => PrintT("@" \o ToJson(<<"programs", LET ps == PureFam(LANG) IN [i \in 1..Len(ps) |-> EncProg(LANG, ps[i])]>>))

\* P05: every run of a function behaves as the selection says, whichever thread and file asks first
Agreement == \A i \in 1..Len(answers) : answers[i][3] <=> (\E j \in 1..Len(list) : list[j] = answers[i][2])
\* and what a thread knows about a file is the file's part of the selection
Knowledge == \A t \in Thr, f \in F : known[t][f] # Unknown => known[t][f] = InFile(f, {list[i] : i \in 1..Len(list)})
=============================================================================
