--------------------------------- MODULE FixMC ---------------------------------
EXTENDS Integers, FiniteSets
CONSTANTS Count, Deep
VARIABLES setup, kin, moved, pcom, qcom, account, input, dirty, act
M == INSTANCE Fix
vars == <<setup, kin, moved, pcom, qcom, account, input, dirty, act>>
SpecInit == /\ setup \in [n : {Count}, fixed : SUBSET (1..Count) \ {1..Count}, com : BOOLEAN]
            /\ M!Init
Spec == SpecInit /\ [][M!Next]_vars
Inv == M!Still /\ M!Cold /\ M!Centred /\ M!Conserved
\* the account and the input are unbounded
Small == account \in -Deep..Deep /\ input \in -Deep..Deep
=============================================================================
