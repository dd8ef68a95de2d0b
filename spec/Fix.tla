---------------------------------- MODULE Fix ----------------------------------
(* Constrained motion.  Some atoms are fixed, or the centre of mass is.  A step
   is any sequence of kicks (by forces, only on atoms that may move), heating
   (by a thermostat, which knows nothing of constraints), drifts (everything
   with momentum moves) and constraining (momenta that must vanish are removed
   and their kinetic energy goes to an account), such that nothing drifts
   between heating and constraining and every step ends constrained.
   Optimisers displace atoms directly.  The user may set momenta at will
   between steps; the motion then starts by constraining them.

   Kinetic energy is counted in quanta per atom: kin[a]; the momentum of an
   atom vanishes iff its quanta do. *)
EXTENDS Integers, FiniteSets

VARIABLES setup,    \* [n, fixed: set of atoms, com: the centre of mass is fixed]
          kin,      \* atom -> quanta of kinetic energy
          moved,    \* atoms which have ever moved
          pcom,     \* momentum of the centre of mass does not vanish
          qcom,     \* centre of mass has moved
          account,  \* energy taken from the momenta minus energy given by heat
          input,    \* energy brought in by the user
          dirty,    \* constraints may be violated
          act

vars == <<setup, kin, moved, pcom, qcom, account, input, dirty, act>>

Atoms == 1..setup.n
Fixed == setup.fixed
Free == Atoms \ Fixed
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN f[a] + Sum(f, S \ {a})
Total == Sum(kin, Atoms)

Init == /\ kin = [a \in Atoms |-> 0]
        /\ moved = {}
        /\ pcom = FALSE
        /\ qcom = FALSE
        /\ account = 0
        /\ input = 0
        /\ dirty = FALSE
        /\ act = [e |-> "start"]

\* forces do work on the free atoms; what they gain comes from the potential,
\* which is not modelled and counted as input here
Kick(f) == /\ ~dirty
           /\ kin' = [a \in Atoms |-> IF a \in Free THEN f[a] ELSE kin[a]]
           /\ input' = input + Sum(kin', Atoms) - Total
           /\ act' = [e |-> "kick"]
           /\ UNCHANGED <<setup, moved, pcom, qcom, account, dirty>>

Heat(f, com) == /\ kin' = f
                /\ account' = account - (Sum(f, Atoms) - Total)
                /\ pcom' = com
                /\ dirty' = TRUE
                /\ act' = [e |-> "heat"]
                /\ UNCHANGED <<setup, moved, qcom, input>>

\* the share of the centre of mass is at most what there is
Constrain(share) ==
             /\ dirty
             /\ share \in 0..Sum(kin, Free)
             /\ share = 0 \/ (setup.com /\ pcom)
             /\ \E f \in [Atoms -> 0..2] :
                   /\ \A a \in Fixed : f[a] = 0
                   /\ Sum(f, Free) = Sum(kin, Free) - share
                   /\ share = 0 => \A a \in Free : f[a] = kin[a]
                   /\ kin' = f
             /\ account' = account + Total - Sum(kin', Atoms)
             /\ pcom' = (pcom /\ ~setup.com)
             /\ dirty' = FALSE
             /\ act' = [e |-> "constrain"]
             /\ UNCHANGED <<setup, moved, qcom, input>>

Drift == /\ ~dirty
         /\ moved' = moved \cup {a \in Atoms : kin[a] > 0}
         /\ qcom' = (qcom \/ pcom)
         /\ act' = [e |-> "drift"]
         /\ UNCHANGED <<setup, kin, pcom, account, input, dirty>>

Displace(S) == /\ ~dirty /\ ~setup.com
               /\ S \subseteq Free
               /\ moved' = moved \cup S
               /\ qcom' = TRUE
               /\ act' = [e |-> "displace"]
               /\ UNCHANGED <<setup, kin, pcom, account, input, dirty>>

User(f, com) == /\ ~dirty
                /\ kin' = f
                /\ input' = input + Sum(f, Atoms) - Total
                /\ pcom' = com
                /\ dirty' = TRUE
                /\ act' = [e |-> "user"]
                /\ UNCHANGED <<setup, moved, qcom, account>>

Some == [Atoms -> 0..2]
Next == \/ \E f \in Some : Kick(f) \/ (\E c \in BOOLEAN : Heat(f, c) \/ User(f, c))
        \/ \E s \in 0..4 : Constrain(s)
        \/ Drift
        \/ \E S \in SUBSET Free : Displace(S)

-----------------------------------------------------------------------------
Still == moved \cap Fixed = {}
Cold == ~dirty => \A a \in Fixed : kin[a] = 0
Centred == setup.com => ~qcom /\ (~dirty => ~pcom)
Conserved == Total + account = input
=============================================================================
