--------------------------------- MODULE Prng ---------------------------------
(* The random-number generator as a pure function.  A generator is where it   *)
(* stands: its seed, its number of streams and what it has drawn since.       *)
(* Drawing returns a number that depends on nothing else; saving copies the   *)
(* standing, restoring puts another generator at exactly that point.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pos,     \* generator -> [seed, nt, drawn] or Void
          store,   \* saved states: slot -> position
          out,     \* set of <<position, draw>> ever produced
          act
vars == <<pos, store, out, act>>
dyn == <<pos, store, out>>
Void == [seed |-> 0, nt |-> 0, drawn |-> <<>>]

Create(g, s, n) == /\ pos' = [pos EXCEPT ![g] = [seed |-> s, nt |-> n, drawn |-> <<>>]]
                   /\ act' = [op |-> "create", g |-> g, s |-> s, n |-> n]
                   /\ UNCHANGED <<store, out>>
Draw(g, d) == /\ pos[g] # Void
              /\ out' = out \cup {<<pos[g], d>>}
              /\ pos' = [pos EXCEPT ![g].drawn = Append(@, d)]
              /\ act' = [op |-> "draw", g |-> g, d |-> d]
              /\ UNCHANGED store
Save(g, k) == /\ pos[g] # Void
              /\ store' = [store EXCEPT ![k] = pos[g]]
              /\ act' = [op |-> "save", g |-> g, k |-> k]
              /\ UNCHANGED <<pos, out>>
\* into another generator with the same number of streams
Restore(g, k) == /\ store[k] # Void /\ pos[g] # Void /\ pos[g].nt = store[k].nt
                 /\ pos' = [pos EXCEPT ![g] = store[k]]
                 /\ act' = [op |-> "restore", g |-> g, k |-> k]
                 /\ UNCHANGED <<store, out>>
\* a new process built from what was saved
Reload(g, k) == /\ store[k] # Void
                /\ pos' = [pos EXCEPT ![g] = store[k]]
                /\ act' = [op |-> "reload", g |-> g, k |-> k]
                /\ UNCHANGED <<store, out>>
=============================================================================
