------------------------------- MODULE Encode -------------------------------
(***************************************************************************)
(* Programs, their groups and their numbering in closed form, and how they   *)
(* are written down for the harness.                                        *)
(***************************************************************************)
EXTENDS Macros, Json

RECURSIVE CountActs(_, _)
CountActs(gs, n) == IF n = 0 THEN 0 ELSE CountActs(gs, n - 1) + Len(gs[n].acts)

\* the groups of a function with the ids they get when numbering starts at 0
Numbering(L, o, body) ==
  LET gs == PostOrder(FnTree(L, o, body))
  IN [i \in 1..Len(gs) |-> [g |-> gs[i], first |-> CountActs(gs, i - 1)]]
Total(L, o, body) == LET gs == PostOrder(FnTree(L, o, body)) IN CountActs(gs, Len(gs))

RECURSIVE Enc(_)
Enc(e) == IF e.k = "Orig" THEN <<"Orig", e.c>>
          ELSE <<e.k, e.op, e.t, IF e.lv THEN 1 ELSE 0, e.q, e.v, e.n, [i \in 1..Len(e.c) |-> Enc(e.c[i])]>>

EncGroups(L, gv, body) ==
  [i \in 1..Len(gv) |->
     LET g == gv[i].g IN
     <<g.kind, g.path, gv[i].first, g.acts,
       [j \in 1..Len(g.acts) |-> Enc(EditOf(L, g, At(body, g.path), g.acts[j]))]>>]

RECURSIVE EncTree(_)
EncTree(t) == <<[i \in 1..Len(t.g) |-> <<t.g[i].kind, t.g[i].path>>], [i \in 1..Len(t.ch) |-> EncTree(t.ch[i])]>>

EncHead(L, p) == <<L, p.fam, p.tag, [i \in 1..Len(p.ps) |-> <<p.ps[i].v, p.ps[i].t, p.ps[i].q>>], p.ret, Enc(p.body)>>

EncProg(L, p) ==
  EncHead(L, p) \o
  << <<EncGroups(L, Numbering(L, FALSE, p.body), p.body), EncGroups(L, Numbering(L, TRUE, p.body), p.body)>>,
     <<EncTree(FnTree(L, FALSE, p.body)), EncTree(FnTree(L, TRUE, p.body))>>,
     <<Total(L, FALSE, p.body), Total(L, TRUE, p.body)>> >>
=============================================================================
