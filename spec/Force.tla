-------------------------------- MODULE Force --------------------------------
(* What a system knows about its forces.  Two force objects (1: the system,   *)
(* 2: a clone with its own positions and cell) hold the same components.      *)
(* pos[o] and cel[o] are versions of positions and cell, got[o][c] the        *)
(* versions for which component c was evaluated (<<0,0>>: never), zero[o] the *)
(* components switched off by a zero weight.  A read of anything evaluates    *)
(* the components it needs which are not up to date, and nothing else.        *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES setup, pos, cel, got, zero, saved, clock, act
vars == <<setup, pos, cel, got, zero, saved, clock, act>>
C == 1..setup.nc
O == {1, 2}
Here(o) == <<pos[o], cel[o]>>
Never == <<0, 0>>
Nothing == [pos |-> 0, cel |-> 0, got |-> [c \in C |-> Never]]
Init == /\ pos = <<1, 1>> /\ cel = <<1, 1>> /\ clock = 1
        /\ got = [o \in O |-> [c \in C |-> Never]]
        /\ zero = [o \in O |-> {c \in C : setup.zero[c]}]
        /\ saved = Nothing /\ act = [op |-> "none", ev |-> {}]
Stale(o) == {c \in C : got[o][c] # Here(o)}
\* components which a read needs: the total and one level of the splitting use
\* those with a weight (and a level weight), raw components are always needed
Needs(o, what, k) ==
  CASE what = "total" -> C \ zero[o]
    [] what = "level" -> {c \in C \ zero[o] : setup.level[c][k] # 0}
    [] what = "raw" -> {k}
    [] OTHER -> {k} \ zero[o]
Eval(o, S) == got' = [got EXCEPT ![o] = [c \in C |-> IF c \in S THEN Here(o) ELSE got[o][c]]]
Read(o, what, k) == LET S == Needs(o, what, k) \cap Stale(o) IN
   /\ Eval(o, S) /\ act' = [op |-> "read", ev |-> S, o |-> o, what |-> what, k |-> k]
   /\ UNCHANGED <<setup, pos, cel, zero, saved, clock>>
Write(o, what) ==
   /\ clock' = clock + 1
   /\ pos' = (IF what = "q" THEN [pos EXCEPT ![o] = clock + 1] ELSE pos)
   /\ cel' = (IF what = "h" THEN [cel EXCEPT ![o] = clock + 1] ELSE cel)
   /\ act' = [op |-> "write", ev |-> {}] /\ UNCHANGED <<setup, got, zero, saved>>
\* the values of one object are given to the other: new values for it, even if
\* they are the same as before
Forget(o) == [got EXCEPT ![o] = [c \in C |-> Never]]
Sync(o, f) == /\ pos' = [pos EXCEPT ![o] = pos[f]] /\ cel' = [cel EXCEPT ![o] = cel[f]]
              /\ got' = Forget(o) /\ act' = [op |-> "sync", ev |-> {}]
              /\ UNCHANGED <<setup, zero, saved, clock>>
Weight(c, w) == /\ zero' = [zero EXCEPT ![1] = IF w THEN zero[1] \ {c} ELSE zero[1] \cup {c}]
                /\ act' = [op |-> "weight", ev |-> {}]
                /\ UNCHANGED <<setup, pos, cel, got, saved, clock>>
\* what is up to date in the source is up to date in the target; the rest will
\* be evaluated when it is needed
Give(o, g) == got' = [got EXCEPT ![o] = [c \in C |-> IF g[c] = Here(o) THEN Here(o) ELSE Never]]
Transfer(o, f) == /\ Here(o) = Here(f) /\ Give(o, got[f])
                  /\ act' = [op |-> "transfer", ev |-> {}]
                  /\ UNCHANGED <<setup, pos, cel, zero, saved, clock>>
Dump == /\ saved' = [pos |-> pos[1], cel |-> cel[1], got |-> got[1]]
        /\ act' = [op |-> "dump", ev |-> {}] /\ UNCHANGED <<setup, pos, cel, got, zero, clock>>
\* the positions go back to what they were, then the results are loaded
Load == /\ saved.pos > 0 /\ pos' = [pos EXCEPT ![1] = saved.pos] /\ cel' = [cel EXCEPT ![1] = saved.cel]
        /\ got' = [got EXCEPT ![1] = [c \in C |-> IF saved.got[c] = <<saved.pos, saved.cel>> THEN saved.got[c] ELSE Never]]
        /\ act' = [op |-> "load", ev |-> {}] /\ UNCHANGED <<setup, zero, saved, clock>>
Next == \E o \in O :
   \/ \E c \in C : Read(o, "raw", c) \/ Read(o, "comp", c)
   \/ Read(o, "total", 0)
   \/ \E k \in 1..setup.nl : Read(o, "level", k)
   \/ Write(o, "q") \/ Write(o, "h")
   \/ Sync(o, 3 - o) \/ Transfer(o, 3 - o)
   \/ \E c \in C : Weight(c, TRUE) \/ Weight(c, FALSE)
   \/ Dump \/ Load

\* a read leaves what it needs up to date and never evaluates a component with
\* zero weight, except when it is asked for as such
Fresh == act.op = "read" => Needs(act.o, act.what, act.k) \cap Stale(act.o) = {}
Frugal == act.op = "read" /\ act.what # "raw" => act.ev \cap zero[act.o] = {}
\* nothing is believed to be up to date which was never evaluated there
Honest == \A o \in O, c \in C : got[o][c] # Never => got[o][c][1] <= clock
Again == [][act'.op = "read" => \A c \in act'.ev : got[act'.o][c] # Here(act'.o)]_vars
=============================================================================
