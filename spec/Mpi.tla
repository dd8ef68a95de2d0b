--------------------------------- MODULE Mpi ---------------------------------
(* The MPI force fields: one server (rank 0) whose force fields own disjoint  *)
(* pools of workers (driver group roots).  One action per message, as a       *)
(* communicator sees them; polls of different force fields interleave at any  *)
(* message boundary (the communicator itself is never entered by two threads).*)
(*   Owner : worker -> force field it was launched for (0: untagged)          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE world   \* the launch: [nw, nf, nr, batch, owner, reqff], never changes
NW == world.nw
NF == world.nf
NR == world.nr
Batch == world.batch
Owner == world.owner
ReqFF == world.reqff

Workers == 1..NW
FFs == 1..NF
Reqs == 1..NR

VARIABLES
  open,      \* force fields that have joined the world
  pool,      \* worker -> force field that claimed it (0: none yet)
  inited,    \* workers that were sent INIT
  st,        \* request -> "new" "queued" "running" "done" "exit"
  by,        \* request -> worker that holds / answered it (0: none)
  out,       \* worker -> batch it works on (<<>>: idle)
  ans,       \* workers whose answer is on its way
  exited,    \* workers told to leave
  stopped,   \* force fields that were stopped
  act
vars == <<world, open, pool, inited, st, by, out, ans, exited, stopped, act>>
view == <<world, open, pool, inited, st, by, out, ans, exited, stopped>>
dyn == <<open, pool, inited, st, by, out, ans, exited, stopped>>

\* a lone force field claims all workers, otherwise each claims its own
WorldOK == IF NF = 1 THEN NW > 0
           ELSE /\ \A w \in Workers : Owner[w] \in FFs
                /\ \A f \in FFs : \E w \in Workers : Owner[w] = f
Claim(w) == IF NF = 1 THEN 1 ELSE Owner[w]
Pool(f) == {w \in Workers : pool[w] = f}

Init == /\ open = {} /\ pool = [w \in Workers |-> 0] /\ inited = {}
        /\ st = [r \in Reqs |-> "new"] /\ by = [r \in Reqs |-> 0]
        /\ out = [w \in Workers |-> <<>>] /\ ans = {} /\ exited = {} /\ stopped = {}
        /\ act = [op |-> "init"]

Open(f) == /\ f \notin open /\ WorldOK
           /\ open' = open \cup {f}
           /\ pool' = [w \in Workers |-> IF Claim(w) = f THEN f ELSE pool[w]]
           /\ act' = [op |-> "open", f |-> f]
           /\ UNCHANGED <<inited, st, by, out, ans, exited, stopped>>

Submit(r) == /\ st[r] = "new" /\ ReqFF[r] \in open \ stopped
             /\ st' = [st EXCEPT ![r] = "queued"]
             /\ act' = [op |-> "submit", r |-> r, f |-> ReqFF[r]]
             /\ UNCHANGED <<open, pool, inited, by, out, ans, exited, stopped>>

SendInit(w) == /\ pool[w] # 0 /\ pool[w] \notin stopped /\ w \notin inited \cup exited
               /\ inited' = inited \cup {w}
               /\ act' = [op |-> "INIT", w |-> w]
               /\ UNCHANGED <<open, pool, st, by, out, ans, exited, stopped>>

Range(s) == {s[i] : i \in 1..Len(s)}
Injective(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

SendWork(w, b) ==
  /\ pool[w] # 0 /\ pool[w] \notin stopped /\ w \in inited /\ w \notin exited
  /\ out[w] = <<>>
  /\ Len(b) \in 1..Batch /\ Injective(b)
  /\ \A r \in Range(b) : st[r] = "queued" /\ ReqFF[r] = pool[w]
  /\ out' = [out EXCEPT ![w] = b]
  /\ st' = [r \in Reqs |-> IF r \in Range(b) THEN "running" ELSE st[r]]
  /\ by' = [r \in Reqs |-> IF r \in Range(b) THEN w ELSE by[r]]
  /\ act' = [op |-> "WORK", w |-> w, b |-> b]
  /\ UNCHANGED <<open, pool, inited, ans, exited, stopped>>

\* the worker computes; its two messages are then available to the server
Answer(w) == /\ out[w] # <<>> /\ w \notin ans
             /\ ans' = ans \cup {w}
             /\ act' = [op |-> "ANS", w |-> w]
             /\ UNCHANGED <<open, pool, inited, st, by, out, exited, stopped>>

Collect(w) == /\ pool[w] # 0 /\ pool[w] \notin stopped /\ w \in ans
              /\ ans' = ans \ {w}
              /\ st' = [r \in Reqs |-> IF r \in Range(out[w]) THEN "done" ELSE st[r]]
              /\ out' = [out EXCEPT ![w] = <<>>]
              /\ act' = [op |-> "COLLECT", w |-> w]
              /\ UNCHANGED <<open, pool, inited, by, exited, stopped>>

\* stopping: unanswered evaluations are marked, then every worker is told once
Stop(f) == /\ f \in open \ stopped
           /\ stopped' = stopped \cup {f}
           /\ st' = [r \in Reqs |-> IF ReqFF[r] = f /\ st[r] \in {"queued", "running"}
                                    THEN "exit" ELSE st[r]]
           /\ act' = [op |-> "stop", f |-> f]
           /\ UNCHANGED <<open, pool, inited, by, out, ans, exited>>

SendExit(w) == /\ pool[w] \in stopped /\ w \notin exited
               /\ exited' = exited \cup {w}
               /\ act' = [op |-> "EXIT", w |-> w]
               /\ UNCHANGED <<open, pool, inited, st, by, out, ans, stopped>>

Batches == UNION {[1..n -> Reqs] : n \in 1..Batch}
Next == /\ UNCHANGED world
        /\ \/ \E f \in FFs : Open(f) \/ Stop(f)
           \/ \E r \in Reqs : Submit(r)
           \/ \E w \in Workers : SendInit(w) \/ Answer(w) \/ Collect(w) \/ SendExit(w)
           \/ \E w \in Workers, b \in Batches : SendWork(w, b)

(* ------------------------------------------------------------- properties *)
Disjoint == \A w \in Workers : pool[w] # 0 => pool[w] = Claim(w)
OwnPool == \A r \in Reqs : by[r] # 0 => pool[by[r]] = ReqFF[r]
OneHolder == \A r \in Reqs : Cardinality({w \in Workers : r \in Range(out[w])}) <= 1
HeldIsRunning == \A w \in Workers : \A r \in Range(out[w]) : st[r] \in {"running", "exit"} /\ by[r] = w
InitFirst == \A w \in Workers : out[w] # <<>> => w \in inited
DoneByHolder == \A r \in Reqs : st[r] = "done" => by[r] # 0 /\ r \notin UNION {Range(out[w]) : w \in Workers}
DoneStable == [][\A r \in Reqs : st[r] = "done" => st'[r] = "done" /\ by'[r] = by[r]]_view
NoWorkAfterExit == [][\A w \in Workers : w \in exited => (out'[w] = out[w] \/ out'[w] = <<>>)]_view

=============================================================================
