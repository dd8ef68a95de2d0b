------------------------------- MODULE DriverMC -------------------------------
EXTENDS Integers, Sequences
CONSTANTS Need, Push, NS, B, MaxWire, MaxMsg
VARIABLES setup, wire, back, dinit, held, gone, sinit, last, open, expect, act, n
D == INSTANCE Driver
vars == <<setup, wire, back, dinit, held, gone, sinit, last, open, expect, act, n>>
SpecInit == setup = [need |-> Need, push |-> Push] /\ n = 0 /\ D!Init
Structs == UNION {[1..b -> 1..NS] : b \in (IF Push THEN 1..B ELSE {B})}
Next == \/ D!Handle /\ n' = n
        \/ D!Recv /\ n' = n
        \/ /\ Len(wire) < MaxWire /\ n < MaxMsg /\ n' = n + 1
           /\ \/ D!Status \/ D!InitM \/ D!GetForce
              \/ \E s \in Structs : D!Pos(s)
              \/ \E h \in {"exit", "drop", "cut"} : D!Leave(h)
Spec == SpecInit /\ [][Next]_vars /\ WF_vars(D!Handle /\ n' = n)
Inv == D!Faithful /\ D!Complete /\ D!NoDesert
Leaves == ~open ~> gone
=============================================================================
