------------------------------ MODULE PrngTrace ------------------------------
(* Draws recorded from real generators.  Every draw reports tokens: one per   *)
(* block of the numbers delivered, equal iff the numbers are equal.  The same *)
(* draw at the same position gives the same tokens; any other wide draw gives *)
(* tokens never seen before.                                                  *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES tid, l, pos, store, out, act, known
P == INSTANCE Prng
Ev == Traces[tid][l + 1]
all == <<tid, l, pos, store, out, act, known>>
Gens == 1..Traces[tid][1].gens
Slots == 1..Traces[tid][1].slots
TInit == /\ tid \in 1..NT /\ l = 1
         /\ pos = [g \in Gens |-> P!Void] /\ store = [k \in Slots |-> P!Void]
         /\ out = {} /\ act = [op |-> "init"] /\ known = {}
\* known: [at |-> <<position, draw>>, tok |-> tokens, wide |-> BOOLEAN]
Rng(s) == {s[i] : i \in 1..Len(s)}
Here(g, d) == {x \in known : x.at = <<pos[g], d>>}
NoRepeat == \A i, j \in 1..Len(Ev.tok) : i # j => Ev.tok[i] # Ev.tok[j]
\* numbers used up on the way to here, or by a generator with another seed;
\* (alternative continuations of one state may share numbers)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Used(x, p) == \/ x.at[1].seed # p.seed
              \/ x.at[1].nt = p.nt /\ Prefix(Append(x.at[1].drawn, x.at[2]), p.drawn)
Fresh == NoRepeat /\ \A x \in known : (x.wide /\ Used(x, pos[Ev.g])) => Rng(x.tok) \cap Rng(Ev.tok) = {}
DrawEv == /\ Ev.ok
          /\ IF Ev.null THEN UNCHANGED <<pos, store, out, act>> ELSE P!Draw(Ev.g, Ev.d)
          /\ IF Here(Ev.g, Ev.d) # {}
             THEN (\A x \in Here(Ev.g, Ev.d) : x.tok = Ev.tok) = TRUE /\ known' = known
             ELSE (Ev.wide => Fresh) = TRUE /\ known' = known \cup {[at |-> <<pos[Ev.g], Ev.d>>, tok |-> Ev.tok, wide |-> Ev.wide]}
Step == CASE Ev.e = "create" -> P!Create(Ev.g, Ev.s, Ev.n) /\ known' = known
          [] Ev.e = "draw" -> DrawEv
          [] Ev.e = "save" -> P!Save(Ev.g, Ev.k) /\ known' = known
          [] Ev.e = "restore" -> P!Restore(Ev.g, Ev.k) /\ known' = known
          [] Ev.e = "reload" -> Ev.ok /\ P!Reload(Ev.g, Ev.k) /\ known' = known
          [] OTHER -> FALSE
TNext == l < Len(Traces[tid]) /\ Step /\ l' = l + 1 /\ tid' = tid
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
