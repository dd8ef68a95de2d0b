------------------------------- MODULE ForceMC -------------------------------
EXTENDS Integers, Sequences
CONSTANTS NC, Clock
VARIABLES setup, pos, cel, got, zero, saved, clock, act
F == INSTANCE Force
vars == <<setup, pos, cel, got, zero, saved, clock, act>>
SpecInit == /\ setup = [nc |-> NC, nl |-> 2, zero |-> [c \in 1..NC |-> c = 2],
                        level |-> [c \in 1..NC |-> IF c = 1 THEN <<1, 0>> ELSE <<0, 1>>]]
            /\ F!Init
Spec == SpecInit /\ [][F!Next]_vars
Bound == clock < Clock
Inv == F!Fresh /\ F!Frugal /\ F!Honest
Act == F!Again
=============================================================================
