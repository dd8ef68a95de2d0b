-------------------------------- MODULE Split --------------------------------
(* One time step of molecular dynamics as a splitting of the total propagation
   into kicks of the force levels (B), drifts (A: the free motion, which for
   ring polymers includes the springs) and thermostat pieces (O).

   Time is counted in units of dt / (2 N), where N is the number of innermost
   blocks in a step, so that a step takes 2 N units.  Level l (1 is the
   outermost, slowest) divides every block of the level above in m[l] blocks;
   a block of level l is: half of its kick, everything faster, the other half.
   The innermost block holds two drifts of one unit, so that a thermostat piece
   can be placed in the middle of it.  The thermostat acts either for half a
   step before and half after all of this (obabo), or for a whole step in the
   very middle of it (baoab), or not at all.

   Suzuki-Chin dynamics adds an outermost level with one block. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES setup,   \* [m: Seq(Nat), mode: "none", "obabo" or "baoab"]
          tA, tB, tO,      \* time for which drifts, kicks of each level, thermostat have acted
          opened,  \* level -> in a block
          log, act

vars == <<setup, tA, tB, tO, opened, log, act>>

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

m == setup.m
mode == setup.mode
L == Len(m)
N == Prod(m)
P(l) == Prod(SubSeq(m, l + 1, L))       \* duration of half a kick of level l
Per(l) == 2 * P(l)                      \* duration of a block of level l
Kicks(l) == 2 * Prod(SubSeq(m, 1, l))   \* number of half kicks per step

Init == /\ tA = 0
        /\ tO = 0
        /\ tB = [l \in 1..L |-> 0]
        /\ opened = [l \in 1..L |-> FALSE]
        /\ log = <<>>
        /\ act = [k |-> "start", l |-> 0, d |-> 0]

Ends(l) == tB[l] + P(l)                 \* when the present block of level l ends
ODue == \/ mode = "obabo" /\ tA = 0 /\ tO = 0
        \/ mode = "baoab" /\ tA = N /\ tO = 0

Do(k, l, d) == /\ act' = [k |-> k, l |-> l, d |-> d]
               /\ log' = Append(log, <<k, l, d>>)
               /\ UNCHANGED setup

Close(l) == /\ opened[l] /\ tA = Ends(l)
            /\ \A j \in l + 1..L : ~opened[j]
            /\ tB' = [tB EXCEPT ![l] = @ + P(l)]
            /\ opened' = [opened EXCEPT ![l] = FALSE]
            /\ Do("B", l, P(l))
            /\ UNCHANGED <<tA, tO>>

Open(l) == /\ ~opened[l] /\ tA < 2 * N /\ ~ODue
           /\ \A j \in 1..l - 1 : opened[j] /\ tA < Ends(j)
           /\ tB' = [tB EXCEPT ![l] = @ + P(l)]
           /\ opened' = [opened EXCEPT ![l] = TRUE]
           /\ Do("B", l, P(l))
           /\ UNCHANGED <<tA, tO>>

Drift == /\ \A l \in 1..L : opened[l] /\ tA < Ends(l)
         /\ ~ODue
         /\ tA' = tA + 1
         /\ Do("A", 0, 1)
         /\ UNCHANGED <<tB, tO, opened>>

\* in the middle every block that ends there has been closed and none that
\* starts there has been opened
Thermo == /\ (\/ mode = "obabo" /\ tA \in {0, 2 * N} /\ (\A l \in 1..L : ~opened[l])
              \/ mode = "baoab" /\ tA = N /\ (\A l \in 1..L : N % Per(l) = 0 => ~opened[l])) = TRUE
          /\ tO < (IF mode = "obabo" /\ tA = 0 THEN N ELSE 2 * N)
          /\ LET d == IF mode = "obabo" THEN N ELSE 2 * N
             IN tO' = tO + d /\ Do("O", 0, d)
          /\ UNCHANGED <<tA, tB, opened>>

Done == /\ tA = 2 * N
        /\ \A l \in 1..L : ~opened[l]
        /\ mode # "none" => tO = 2 * N

Next == (\E l \in 1..L : Close(l) \/ Open(l)) \/ Drift \/ Thermo
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* nothing stops before the end, and then the whole time has passed
Progress == ~Done => ENABLED Next
Complete == Done => /\ tA = 2 * N
                    /\ \A l \in 1..L : tB[l] = 2 * N
                    /\ tO = (IF mode = "none" THEN 0 ELSE 2 * N)
Symmetric == Done => log = Rev(log)
Often == Done => \A l \in 1..L :
            Cardinality({i \in 1..Len(log) : log[i][1] = "B" /\ log[i][2] = l}) = Kicks(l)
\* no level runs ahead or lags by more than half a kick
Steady == \A l \in 1..L : tB[l] - tA <= P(l) /\ tA - tB[l] <= P(l)
Deterministic == \A l, j \in 1..L : (ENABLED Open(l) /\ ENABLED (Open(j) \/ Close(j))) => (l = j)
Ending == <>Done
=============================================================================
