--------------------------------- MODULE McMC ---------------------------------
EXTENDS Integers, Sequences
CONSTANTS Kind, Names, Listed, Tries
VARIABLES setup, at, left, first, second, account, acc, act
M == INSTANCE Mc
vars == <<setup, at, left, first, second, account, acc, act>>
NM == CASE Names = "aab" -> <<1, 1, 2>> [] Names = "aabb" -> <<1, 1, 2, 2>> [] Names = "abcb" -> <<1, 2, 3, 2>> [] OTHER -> <<1, 2>>
SpecInit == /\ setup = [n |-> Len(NM), kind |-> Kind, names |-> NM, tries |-> Tries,
                        listed |-> [k \in 1..3 |-> k <= Listed],
                        w |-> [k \in 1..Len(NM) |-> k], x |-> [k \in 1..Len(NM) |-> k * k]]
            /\ M!Init
Spec == SpecInit /\ [][M!Next]_vars
Inv == M!Perm /\ M!Conserved /\ M!Composition /\ M!Untouched /\ M!Bounded
Act == M!Pairwise
=============================================================================
