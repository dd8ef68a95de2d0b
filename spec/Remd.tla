--------------------------------- MODULE Remd ---------------------------------
(* Replica exchange.  Systems 1..N walk over all pairs (i, j), j < i; a pair  *)
(* is skipped or attempted.  An attempt swaps the ensembles, adapts momenta   *)
(* and reference cells, compares the weights, and keeps or undoes the swap.   *)
(* ens[s] is the ensemble a system really has, mom[s] the ensemble whose      *)
(* temperature its momenta correspond to, ref[s] the ensemble whose reference *)
(* cell its barostat uses, idx the published replica index, con[s] the shift  *)
(* of the conserved quantity of s (in units of the last change of energy).    *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES setup, ens, mom, ref, idx, con, pair, phase, act
vars == <<setup, ens, mom, ref, idx, con, pair, phase, act>>
N == setup.n
S == 1..N
Init == /\ ens = setup.idx /\ mom = setup.idx /\ ref = setup.idx /\ idx = setup.idx
        /\ con = [s \in S |-> 0] /\ pair = <<2, 1>> /\ phase = "pair"
        /\ act = [op |-> "none"]
Swap(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
NextPair(p) == IF p[2] + 1 < p[1] THEN <<p[1], p[2] + 1>>
               ELSE IF p[1] < N THEN <<p[1] + 1, 1>> ELSE <<2, 1>>
Rescale(m, i, j) == IF setup.rescale THEN Swap(m, i, j) ELSE m
Skip == /\ phase = "pair" /\ pair' = NextPair(pair) /\ act' = [op |-> "skip"]
        /\ UNCHANGED <<setup, ens, mom, ref, idx, con, phase>>
\* the swap on probation: the conserved quantity is shifted by it
Try == /\ phase = "pair" /\ phase' = "tried"
       /\ LET i == pair[1] j == pair[2] IN
          /\ ens' = Swap(ens, i, j) /\ ref' = Swap(ref, i, j) /\ mom' = Rescale(mom, i, j)
          /\ con' = [con EXCEPT ![i] = 1, ![j] = 1]
       /\ act' = [op |-> "try"] /\ UNCHANGED <<setup, idx, pair>>
Accept == /\ phase = "tried" /\ phase' = "pair" /\ pair' = NextPair(pair)
          /\ LET i == pair[1] j == pair[2] IN
             /\ idx' = Swap(idx, i, j) /\ con' = [con EXCEPT ![i] = 0, ![j] = 0]
          /\ act' = [op |-> "accept"] /\ UNCHANGED <<setup, ens, mom, ref>>
Reject == /\ phase = "tried" /\ phase' = "pair" /\ pair' = NextPair(pair)
          /\ LET i == pair[1] j == pair[2] IN
             /\ ens' = Swap(ens, i, j) /\ ref' = Swap(ref, i, j) /\ mom' = Rescale(mom, i, j)
             /\ con' = [con EXCEPT ![i] = 0, ![j] = 0]
          /\ act' = [op |-> "reject"] /\ UNCHANGED <<setup, idx>>
Next == Skip \/ Try \/ Accept \/ Reject

Perm == {idx[s] : s \in S} = S
Held == phase = "pair" => ens = idx /\ ref = idx /\ con = [s \in S |-> 0]
Momenta == phase = "pair" => mom = (IF setup.rescale THEN idx ELSE setup.idx)
\* a rejected swap leaves no trace, an accepted one changes two systems
Trace == [][/\ act'.op = "reject" => /\ ens' = idx /\ idx' = idx
            /\ idx' # idx => /\ act'.op = "accept"
                             /\ Cardinality({s \in S : idx'[s] # idx[s]}) = 2]_vars
=============================================================================
