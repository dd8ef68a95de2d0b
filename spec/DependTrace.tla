----------------------------- MODULE DependTrace -----------------------------
(* Validation of recorded executions of arbitrary dependency networks (random *)
(* graphs built from ipi.utils.depend objects) against the caching semantics  *)
(* of Depend.tla: lazy evaluation, stale marks pushed downstream,             *)
(* synchronized peers.  The first event of each execution describes the       *)
(* network; every read event carries the value observed and the derived       *)
(* quantities whose functions ran.                                            *)
(*                                                                            *)
(* Network: node i is [k |-> kind, d |-> <<[n |-> input, c |-> coefficient]>>,*)
(*   n0 |-> constant, w |-> number of cells, peer |-> other representation]   *)
(* kinds: "prim", "der" (linear map mod P of its inputs, cell by cell),       *)
(* "pipe" (same value as its input; item > 0: that cell of it),               *)
(* "sync" (peer: y = <<x1 + x2, x2>> mod P for the second of the pair).       *)
EXTENDS Integers, FiniteSets, TraceBase, SequencesExt

P == 9973
VARIABLES tid, l, val, stale, manual
vars == <<tid, l, val, stale, manual>>

Net == Traces[tid][1].net
Ev == Traces[tid][l + 1]
Nodes == 1..Len(Net)
Inputs(n) == {Net[n].d[j].n : j \in 1..Len(Net[n].d)}
Derived(n) == Net[n].k \in {"der", "pipe"}

\* inputs, also through the other representation when it was written last
Second(n) == Net[n].k = "sync" /\ Net[n].second
ToSecond(x) == <<(x[1] + x[2]) % P, x[2]>>
ToFirst(y) == <<(y[1] + P - y[2]) % P, y[2]>>

CellOf(v, c) == IF Len(v) = 1 THEN v[1] ELSE v[c]

RECURSIVE TrueVal(_)
TrueVal(n) ==
  CASE Net[n].k = "prim" -> val[n]
    [] Net[n].k = "sync" ->
        IF manual[n] THEN val[n]
        ELSE IF Second(n) THEN ToSecond(val[Net[n].peer]) ELSE ToFirst(val[Net[n].peer])
    [] Net[n].k = "pipe" ->
        LET v == TrueVal(Net[n].d[1].n)
        IN IF Net[n].item > 0 THEN <<v[Net[n].item]>> ELSE v
    [] OTHER ->
        LET vs == [j \in 1..Len(Net[n].d) |-> TrueVal(Net[n].d[j].n)]
            cell(c) == FoldLeft(LAMBDA acc, j : (acc + Net[n].d[j].c * CellOf(vs[j], c)) % P,
                                Net[n].n0 + c, [j \in 1..Len(Net[n].d) |-> j])
        IN IF Net[n].w = 1 THEN <<cell(1)>> ELSE <<cell(1), cell(2)>>

RECURSIVE Down(_)
Down(S) == LET T == S \cup {m \in Nodes : Derived(m) /\ Inputs(m) \cap S # {}}
           IN IF T = S THEN S ELSE Down(T)

RECURSIVE Need(_)
Need(n) == IF n \notin stale THEN {}
           ELSE {n} \cup (IF Net[n].k = "sync" THEN {} ELSE UNION {Need(m) : m \in Inputs(n)})

Funcs(S) == {n \in S : Net[n].k = "der"}     \* evaluations the recorder can see

TInit == /\ tid \in 1..NT
         /\ l = 1
         /\ val = [n \in 1..Len(Traces[tid][1].net) |-> Traces[tid][1].init[n]]
         /\ stale = {n \in 1..Len(Traces[tid][1].net) :
                       Traces[tid][1].net[n].k \in {"der", "pipe"}}
                    \cup {n \in 1..Len(Traces[tid][1].net) : Traces[tid][1].net[n].k = "sync"
                                                       /\ ~Traces[tid][1].net[n].second}
         /\ manual = [n \in 1..Len(Traces[tid][1].net) |->
                        Traces[tid][1].net[n].k = "sync" /\ Traces[tid][1].net[n].second]

Read ==
  /\ Ev.op = "read"
  /\ Ev.v = TrueVal(Ev.n)
  /\ {Ev.ev[j] : j \in 1..Len(Ev.ev)} = Funcs(Need(Ev.n))
  /\ Len(Ev.ev) = Cardinality(Funcs(Need(Ev.n)))            \* once each
  /\ stale' = stale \ Need(Ev.n)
  /\ UNCHANGED <<val, manual>>

Write ==
  /\ Ev.op = "write"
  /\ ~Derived(Ev.n)
  /\ Len(Ev.ev) = 0
  /\ LET cur == TrueVal(Ev.n)
         new == IF Ev.cell = 0 THEN Ev.v ELSE [cur EXCEPT ![Ev.cell] = Ev.v[1]]
         o == IF Net[Ev.n].k = "sync" THEN {Net[Ev.n].peer} ELSE {}
     IN /\ val' = [val EXCEPT ![Ev.n] = new]
        /\ manual' = [m \in Nodes |-> IF m \in o THEN FALSE ELSE IF m = Ev.n THEN Net[m].k = "sync" ELSE manual[m]]
        /\ stale' = ((stale \ {Ev.n}) \cup o) \cup (Down({Ev.n} \cup o) \ ({Ev.n} \cup o))

Refuse ==
  /\ Ev.op = "refuse"
  /\ Derived(Ev.n)
  /\ Ev.raised
  /\ UNCHANGED <<val, stale, manual>>

TNext == /\ l < Len(Traces[tid])
         /\ l' = l + 1
         /\ tid' = tid
         /\ Read \/ Write \/ Refuse

Spec == TInit /\ [][TNext]_vars
Track == TrackAt(tid, l)
=============================================================================
