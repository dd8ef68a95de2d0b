------------------------------- MODULE PrngMC -------------------------------
EXTENDS Prng
CONSTANTS Gens, Slots, Seeds, Threads, Draws, MaxDraw
Init == /\ pos = [g \in Gens |-> Void] /\ store = [k \in Slots |-> Void]
        /\ out = {} /\ act = [op |-> "init"]
Next == \/ \E g \in Gens, s \in Seeds, n \in Threads : pos[g] = Void /\ Create(g, s, n)
        \/ \E g \in Gens, d \in Draws : Len(pos[g].drawn) < MaxDraw /\ Draw(g, d)
        \/ \E g \in Gens, k \in Slots : Save(g, k) \/ Restore(g, k) \/ Reload(g, k)
Spec == Init /\ [][Next]_vars
view == dyn
\* two generators at the same point produce the same continuation: the output
\* of a draw is a function of the position, never of the generator
Determined == \A g, h \in Gens : pos[g] = pos[h] => \A d \in Draws : <<pos[g], d>> = <<pos[h], d>>
\* a saved state survives whatever its generator does afterwards
SavedStays == [][\A k \in Slots : (act'.op \in {"draw", "restore", "reload", "create"}) => store'[k] = store[k]]_dyn
\* nobody but the generator itself moves it
OnlyOwn == [][\A g \in Gens : (act'.op \in {"draw", "restore", "reload", "create"} /\ act'.g # g) => pos'[g] = pos[g]]_dyn
SaveHarmless == [][act'.op = "save" => pos' = pos]_dyn
\* draws from one generator never return to an earlier point by themselves
Forward == [][\A g \in Gens : (act'.op = "draw" /\ act'.g = g) => Len(pos'[g].drawn) = Len(pos[g].drawn) + 1]_dyn
=============================================================================
