---------------------------- MODULE DependThreads ----------------------------
(* Concurrent readers of the chain a -> c1 -> c2 (ipi/utils/depend.py,        *)
(* _refresh: lock of the quantity, second look at the stale mark, evaluation, *)
(* store, clear the mark).  A reader of c2 holds the lock of c2 while it      *)
(* obtains c1.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit

CONSTANT Readers
VARIABLES pc,      \* pc[t] : stack of quantities the reader is obtaining
          phase,   \* phase[t] : "idle", "want", "eval", "done"
          lock,    \* lock[n] : holder, 0 if free
          stale, evals, act
view == <<pc, phase, lock, stale, evals>>
vars == <<pc, phase, lock, stale, evals, act>>
N == {"c1", "c2"}

Init == /\ pc = [t \in Readers |-> <<>>]
        /\ phase = [t \in Readers |-> "idle"]
        /\ lock = [n \in N |-> 0]
        /\ stale = N
        /\ evals = [n \in N |-> 0]
        /\ act = [op |-> "init"]

Top(t) == Head(pc[t])

Start(t, n) ==
  /\ phase[t] = "idle"
  /\ pc' = [pc EXCEPT ![t] = <<n>>]
  /\ phase' = [phase EXCEPT ![t] = "want"]
  /\ UNCHANGED <<lock, stale, evals>>
  /\ act' = [op |-> "start", t |-> t, n |-> n]

\* c2's function obtains c1 first; then the evaluation proper begins
Begin(t) ==
  /\ phase[t] = "want" /\ Top(t) \in stale
  /\ lock[Top(t)] \in {0, t}
  /\ IF Top(t) = "c2" /\ "c1" \in stale
     THEN /\ lock' = [lock EXCEPT !["c2"] = t]
          /\ lock["c1"] = 0
          /\ lock' = [lock EXCEPT !["c2"] = t]
          /\ pc' = [pc EXCEPT ![t] = <<"c1">> \o pc[t]]
          /\ UNCHANGED <<phase, evals, stale>>
          /\ act' = [op |-> "descend", t |-> t, n |-> "c1"]
     ELSE /\ lock' = [lock EXCEPT ![Top(t)] = t]
          /\ phase' = [phase EXCEPT ![t] = "eval"]
          /\ evals' = [evals EXCEPT ![Top(t)] = @ + 1]
          /\ UNCHANGED <<pc, stale>>
          /\ act' = [op |-> "begin", t |-> t, n |-> Top(t)]

End(t) ==
  /\ phase[t] = "eval"
  /\ stale' = stale \ {Top(t)}
  /\ lock' = [lock EXCEPT ![Top(t)] = 0]
  /\ IF Len(pc[t]) > 1
     THEN pc' = [pc EXCEPT ![t] = Tail(@)] /\ phase' = [phase EXCEPT ![t] = "want"]
     ELSE UNCHANGED pc /\ phase' = [phase EXCEPT ![t] = "have"]
  /\ UNCHANGED evals
  /\ act' = [op |-> "end", t |-> t, n |-> Top(t)]

\* found up to date (possibly after waiting for somebody else's evaluation)
Found(t) ==
  /\ phase[t] = "want" /\ Top(t) \notin stale
  /\ IF Len(pc[t]) > 1
     THEN pc' = [pc EXCEPT ![t] = Tail(@)] /\ UNCHANGED phase
     ELSE UNCHANGED pc /\ phase' = [phase EXCEPT ![t] = "have"]
  /\ UNCHANGED <<lock, stale, evals>>
  /\ act' = [op |-> "found", t |-> t, n |-> Top(t)]

Return(t) ==
  /\ phase[t] = "have"
  /\ phase' = [phase EXCEPT ![t] = "done"]
  /\ UNCHANGED <<pc, lock, stale, evals>>
  /\ act' = [op |-> "return", t |-> t, n |-> Top(t)]

Next == \E t \in Readers :
          \/ \E n \in N : Start(t, n)
          \/ Begin(t) \/ End(t) \/ Found(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

OnceEach == \A n \in N : evals[n] <= 1
NoStaleReturn == \A t \in Readers : phase[t] \in {"have", "done"} => Top(t) \notin stale
MutualExclusion == \A t, u \in Readers : t # u /\ phase[t] = "eval" /\ phase[u] = "eval"
                      => Top(t) # Top(u)
st == [pc |-> pc, phase |-> phase, lock |-> lock, stale |-> stale, evals |-> evals]
EmitInit == (act.op = "init") => EmitLine([i |-> st])
EmitTr == EmitLine([f |-> st, a |-> act', t |-> st'])
=============================================================================
