---------------------------------- MODULE Mc ----------------------------------
(* Monte Carlo exchanges of atoms inside a trajectory.  Atoms 1..N carry      *)
(* labels: at[a] is the path (atom swap: positions travel, names stay) or the *)
(* isotope (alchemy: names and masses travel, positions stay) of atom a.  A   *)
(* round makes a number of tries; in each a pair with different names is      *)
(* drawn (the second partner is drawn again while the names agree) and the    *)
(* exchange is kept or not.  The account holds minus the energy put in.       *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES setup, at, left, first, second, account, acc, act
vars == <<setup, at, left, first, second, account, acc, act>>
N == setup.n
A == 1..N
NameOf(a) == IF setup.kind = "swap" THEN setup.names[a] ELSE setup.names[at[a]]
List == {a \in A : setup.listed[setup.names[a]]}
\* an energy which depends on which label sits where
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE Sum(f, n - 1) + setup.w[n] * setup.x[f[n]]
Energy(f) == Sum(f, N)
Exchange(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
Init == /\ at = [a \in A |-> a] /\ left = 0 /\ first = 0 /\ second = 0
        /\ account = 0 /\ acc = 0 /\ act = [op |-> "none"]
Ready == left = 0 /\ first = 0 /\ second = 0
Round(n) == /\ Ready /\ left' = n /\ acc' = 0 /\ act' = [op |-> "round", n |-> n]
            /\ UNCHANGED <<setup, at, first, second, account>>
Listed(a) == IF setup.kind = "swap" THEN a \in List ELSE setup.listed[NameOf(a)]
DrawFirst(a) == /\ left > 0 /\ first = 0 /\ Listed(a) /\ first' = a
                /\ act' = [op |-> "draw", a |-> a]
                /\ UNCHANGED <<setup, at, left, second, account, acc>>
Open == (first > 0 /\ (second = 0 \/ NameOf(first) = NameOf(second))) = TRUE
DrawSecond(a) == /\ left > 0 /\ Open /\ Listed(a) /\ second' = a
                 /\ act' = [op |-> "draw", a |-> a]
                 /\ UNCHANGED <<setup, at, left, first, account, acc>>
Paired == (first > 0 /\ second > 0 /\ NameOf(first) # NameOf(second)) = TRUE
Cost == Energy(Exchange(at, first, second)) - Energy(at)
Done == /\ left' = left - 1 /\ first' = 0 /\ second' = 0
Accept == /\ Paired /\ at' = Exchange(at, first, second) /\ account' = account - Cost
          /\ acc' = acc + 1 /\ Done /\ act' = [op |-> "accept", i |-> first, j |-> second]
          /\ UNCHANGED setup
Reject == /\ Paired /\ Done /\ act' = [op |-> "reject"]
          /\ UNCHANGED <<setup, at, account, acc>>
Next == \/ \E n \in 0..setup.tries : Round(n)
        \/ \E a \in A : DrawFirst(a) \/ DrawSecond(a)
        \/ Accept
        \/ (Reject /\ Cost > 0)  \* downhill is never refused

Perm == {at[a] : a \in A} = A
Conserved == Energy(at) + account = Energy([a \in A |-> a])
\* the composition never changes
Composition == \A k \in {setup.names[b] : b \in A} :
   Cardinality({a \in A : setup.names[at[a]] = k}) = Cardinality({a \in A : setup.names[a] = k})
\* atoms which are not listed are never touched
Untouched == \A a \in A : ~setup.listed[setup.names[a]] => at[a] = a
Bounded == acc <= setup.tries
Pairwise == [][at' # at => /\ act'.op = "accept"
                           /\ Cardinality({a \in A : at'[a] # at[a]}) = 2
                           /\ NameOf(act'.i) # NameOf(act'.j)]_vars
=============================================================================
