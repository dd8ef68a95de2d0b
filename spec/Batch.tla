-------------------------------- MODULE Batch --------------------------------
(* Batched in-process evaluation: queued requests are collected and evaluated *)
(* together, at most Size at a time; an incomplete batch is evaluated when no *)
(* new request has come for a number of polls (threaded operation).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE setup            \* [n, size, idle]: requests, batch size, idle polls
VARIABLES st,             \* request -> "new" "queued" "taken" "done"
          batch,          \* requests collected so far, in order
          calm,           \* polls without anything new since then
          act
vars == <<setup, st, batch, calm, act>>
dyn == <<st, batch, calm>>
Rs == 1..setup.n
Range(s) == {s[i] : i \in 1..Len(s)}

Init == /\ st = [r \in Rs |-> "new"] /\ batch = <<>> /\ calm = 0 /\ act = [op |-> "init"]

Submit(r) == /\ st[r] = "new"
             /\ st' = [st EXCEPT ![r] = "queued"]
             /\ act' = [op |-> "submit", r |-> r]
             /\ UNCHANGED <<batch, calm>>
Take(r) == /\ st[r] = "queued" /\ Len(batch) < setup.size
           /\ st' = [st EXCEPT ![r] = "taken"]
           /\ batch' = Append(batch, r)
           /\ calm' = 0
           /\ act' = [op |-> "take", r |-> r]
\* one call of the model on the collected structures
Launch == /\ batch # <<>>
          /\ Len(batch) = setup.size \/ calm >= setup.idle
          /\ st' = [r \in Rs |-> IF r \in Range(batch) THEN "done" ELSE st[r]]
          /\ batch' = <<>> /\ calm' = 0
          /\ act' = [op |-> "call", b |-> batch]
Idle == /\ batch # <<>> /\ Len(batch) < setup.size /\ calm < setup.idle
        /\ \A r \in Rs : st[r] # "queued"
        /\ calm' = calm + 1
        /\ UNCHANGED <<st, batch>>
        /\ act' = [op |-> "idle"]
Next == /\ UNCHANGED setup
        /\ (Launch \/ Idle \/ \E r \in Rs : Submit(r) \/ Take(r))

Together == Len(batch) <= setup.size
NoneTwice == \A i, j \in 1..Len(batch) : i # j => batch[i] # batch[j]
TakenHeld == \A r \in Rs : (st[r] = "taken") <=> (r \in Range(batch))
Once == [][\A r \in Rs : st[r] = "done" => st'[r] = "done"]_dyn
=============================================================================
