-------------------------------- MODULE RemdMC --------------------------------
EXTENDS Integers
CONSTANTS N, Rescale
VARIABLES setup, ens, mom, ref, idx, con, pair, phase, act
R == INSTANCE Remd
vars == <<setup, ens, mom, ref, idx, con, pair, phase, act>>
Perms == {f \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => f[a] # f[b]}
SpecInit == setup \in {[n |-> N, rescale |-> Rescale, idx |-> f] : f \in Perms} /\ R!Init
Spec == SpecInit /\ [][R!Next]_vars
Inv == R!Perm /\ R!Held /\ R!Momenta
Act == R!Trace
=============================================================================
