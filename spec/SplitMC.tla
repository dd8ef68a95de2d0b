------------------------------- MODULE SplitMC -------------------------------
EXTENDS Integers, Sequences
CONSTANTS Levels, Most
VARIABLES setup, tA, tB, tO, opened, log, act
S == INSTANCE Split
vars == <<setup, tA, tB, tO, opened, log, act>>
SpecInit == /\ setup \in [m : UNION {[1..k -> 1..Most] : k \in 1..Levels}, mode : {"none", "obabo", "baoab"}]
            /\ S!Init
Spec == SpecInit /\ [][S!Next]_vars /\ WF_vars(S!Next)
Inv == S!Progress /\ S!Complete /\ S!Symmetric /\ S!Often /\ S!Steady /\ S!Deterministic
Ending == S!Ending
=============================================================================
