------------------------------ MODULE Composite ------------------------------
(* Composite force fields (committee, rotational average): a request is the   *)
(* weighted combination of component evaluations, one per member, that finish *)
(* in any order and interleave with those of other requests.                  *)
(*   val[p][m] is the energy the m-th component computed for request p,       *)
(*   w[m] the weight of that component, sum(w) or the number of members the   *)
(*   normalisation (norm).                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE setup   \* [np, nm, w, val, norm], never changes
VARIABLES mst,   \* request -> member -> "none" "queued" "done" "released"
          pst,   \* request -> "new" "queued" "done"
          res,   \* request -> norm * energy delivered
          act
vars == <<setup, mst, pst, res, act>>
dyn == <<mst, pst, res>>

Ps == 1..setup.np
Ms == 1..setup.nm

RECURSIVE SumTo(_, _)
SumTo(p, m) == IF m = 0 THEN 0 ELSE SumTo(p, m - 1) + setup.w[m] * setup.val[p][m]

Init == /\ mst = [p \in Ps |-> [m \in Ms |-> "none"]]
        /\ pst = [p \in Ps |-> "new"]
        /\ res = [p \in Ps |-> 0]
        /\ act = [op |-> "init"]

Submit(p) == /\ pst[p] = "new"
             /\ pst' = [pst EXCEPT ![p] = "queued"]
             /\ mst' = [mst EXCEPT ![p] = [m \in Ms |-> "queued"]]
             /\ res' = res
             /\ act' = [op |-> "submit", p |-> p]

Finish(p, m) == /\ mst[p][m] = "queued"
                /\ mst' = [mst EXCEPT ![p][m] = "done"]
                /\ UNCHANGED <<pst, res>>
                /\ act' = [op |-> "fin", p |-> p, m |-> m]

Ready(p) == pst[p] = "queued" /\ \A m \in Ms : mst[p][m] = "done"

Gather(p) == /\ Ready(p)
             /\ pst' = [pst EXCEPT ![p] = "done"]
             /\ res' = [res EXCEPT ![p] = SumTo(p, setup.nm)]
             /\ mst' = [mst EXCEPT ![p] = [m \in Ms |-> "released"]]
             /\ act' = [op |-> "done", p |-> p]

Next == /\ UNCHANGED setup
        /\ \/ \E p \in Ps : Submit(p) \/ Gather(p)
           \/ \E p \in Ps, m \in Ms : Finish(p, m)

(* ------------------------------------------------------------- properties *)
OnlyComplete == \A p \in Ps : pst[p] = "done" => \A m \in Ms : mst[p][m] = "released"
OwnValues == \A p \in Ps : pst[p] = "done" => res[p] = SumTo(p, setup.nm)
Once == [][\A p \in Ps : pst[p] = "done" => pst'[p] = "done" /\ res'[p] = res[p]]_dyn
=============================================================================
