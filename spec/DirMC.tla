------------------------------- MODULE DirMC -------------------------------
EXTENDS Dir
CONSTANTS MaxProc, Steps
VARIABLES proc, fresh, before, todo, first, pend, k, num
mvars == <<dvars, proc, fresh, before, todo, first, pend, k, num>>
Outs == {"p", "q"}
\* names: <<base, -1>> is the file itself, <<base, i>> a backup; "c" is overwritten, "n1", "n2".. are numbered
F(x) == <<x, -1>>
Num(i) == <<"n" \o ToString(i), -1>>
New(x) == <<x[1] \o ".new", x[2]>>
Free(x) == <<x[1], CHOOSE i \in 0..20 : <<x[1], i>> \notin DOMAIN dir /\ \A j \in 0..(i - 1) : <<x[1], j>> \in DOMAIN dir>>
\* complete checkpoints which are there
Whole == {n \in DOMAIN dir : n[1] \notin Outs /\ dir[n][1] > 0}
Olds == {F("p"), <<"p", 1>>, F("c"), Num(0), F("x")}
Init == /\ \E S \in SUBSET Olds : dir = [n \in S |-> <<100 + (CHOOSE i \in 1..5 : n = <<F("p"), <<"p", 1>>, F("c"), Num(0), F("x")>>[i])>>]
        /\ keep = {} /\ last = 0 /\ proc = 0 /\ fresh = TRUE /\ before = dir /\ todo = {} /\ first = TRUE /\ pend = "dead" /\ k = 0 /\ num = 0
Launch == /\ pend = "dead" /\ proc < MaxProc
          /\ proc' = proc + 1 /\ before' = dir /\ keep' = {dir[n] : n \in DOMAIN dir} /\ last' = 0
          /\ \/ fresh' = TRUE /\ num' = 0
             \/ fresh' = FALSE /\ proc > 0 /\ last > 0 /\ UNCHANGED num
          /\ todo' = Outs /\ first' = TRUE /\ pend' = "open" /\ k' = 0 /\ UNCHANGED dir
Open == /\ pend = "open"
        /\ \/ \E o \in todo : /\ (IF fresh THEN OpenFresh(F(o), Free(F(o)), proc) ELSE OpenAppend(F(o), proc)) /\ todo' = todo \ {o} /\ UNCHANGED pend
           \/ todo = {} /\ pend' = "idle" /\ UNCHANGED <<todo, dvars>>
        /\ UNCHANGED <<proc, fresh, before, first, k, num>>
\* "c" and the numbered one, one after the other; the number of a checkpoint is kept in it
Target == IF k % 2 = 0 THEN F("c") ELSE Num(num)
Chk == \/ pend = "idle" /\ k < 2 * Steps /\ ChkBegin(New(Target), Free(New(Target)), proc) /\ pend' = "part" /\ UNCHANGED <<k, num, first>>
       \/ pend = "part" /\ ChkWhole(New(Target), proc) /\ pend' = "whole" /\ UNCHANGED <<k, num, first>>
       \/ pend = "whole" /\ pend' = "moved" /\ UNCHANGED <<k, num, first>>
          /\ (IF k % 2 = 1 \/ first THEN ChkMove(Target, Free(Target)) ELSE UNCHANGED dvars)
       \/ pend = "moved" /\ ChkReplace(New(Target), Target) /\ pend' = "idle" /\ k' = k + 1 /\ first' = FALSE /\ num' = (IF k % 2 = 1 THEN num + 1 ELSE num)
Kill == pend \notin {"dead"} /\ pend' = "dead" /\ UNCHANGED <<dvars, proc, fresh, before, todo, first, k, num>>
Next == Launch \/ Open \/ (Chk /\ UNCHANGED <<proc, fresh, before, todo>>) \/ Kill
Spec == Init /\ [][Next]_mvars
\* there is a complete checkpoint of this process once one has been written
Loadable == last > 0 => \E n \in Whole : dir[n] = <<proc>>
\* a process which did all it had to do leaves the outcome which the conformance check asks for
Written == {Num(i) : i \in 0..20} \cap {n \in DOMAIN dir : dir[n] = <<proc>>}
Tmp(n) == n[1] \in {"c.new", "n0.new", "n1.new", "n2.new", "n3.new", "n4.new", "n5.new"}
Visible(d) == [n \in {x \in DOMAIN d : ~Tmp(x)} |-> d[n]]
Refines == pend = "idle" /\ k = 2 * Steps => Outcome(Visible(before), Visible(dir), fresh, {F(o) : o \in Outs}, {F("c")}, Written, proc)
KilledOK == Killed(before, dir)
=============================================================================
