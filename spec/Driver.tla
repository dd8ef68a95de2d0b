-------------------------------- MODULE Driver --------------------------------
(* A driver (client) of the i-PI protocol and any server that follows it.     *)
(* The server may send messages without waiting (i-PI asks for the STATUS     *)
(* right after POSDATA); wire holds what the driver has not read yet, back    *)
(* the answers the server has not read yet.  setup.need says that the driver  *)
(* asks to be initialised; setup.push that results are sent without GETFORCE  *)
(* (MPI).  A structure is a number, a request a sequence of structures.       *)
EXTENDS Integers, Sequences
VARIABLES setup, wire, back, dinit, held, gone,  \* channel and driver
          sinit, last, open, expect, act          \* server
vars == <<setup, wire, back, dinit, held, gone, sinit, last, open, expect, act>>
tvars == <<wire, back, dinit, held, gone, sinit, last, open, expect, act>>

Init == /\ wire = <<>> /\ back = <<>> /\ dinit = ~setup.need /\ held = <<>> /\ gone = FALSE
        /\ sinit = ~setup.need /\ last = <<>> /\ open = TRUE /\ expect = <<>> /\ act = [op |-> "none"]

---- (* the server *)
Word(i, h) == IF ~i THEN "NEEDINIT" ELSE IF h # <<>> THEN "HAVEDATA" ELSE "READY"
Post(m) == wire' = Append(wire, m) /\ UNCHANGED <<setup, back, dinit, held, gone>>
Status == /\ open /\ ~setup.push /\ Post([t |-> "status"])
          /\ expect' = Append(expect, [t |-> "status", w |-> Word(sinit, last)])
          /\ act' = [op |-> "status"] /\ UNCHANGED <<sinit, last, open>>
InitM == /\ open /\ Post([t |-> "init"]) /\ sinit' = TRUE
         /\ act' = [op |-> "init"] /\ UNCHANGED <<last, open, expect>>
Pos(s) == /\ open /\ sinit /\ Post([t |-> "pos", s |-> s])
          /\ IF setup.push THEN /\ expect' = Append(expect, [t |-> "force", s |-> s]) /\ last' = last
             ELSE /\ last' = s /\ expect' = expect
          /\ act' = [op |-> "pos", s |-> s] /\ UNCHANGED <<sinit, open>>
GetForce == /\ open /\ ~setup.push /\ last # <<>> /\ Post([t |-> "get"])
            /\ expect' = Append(expect, [t |-> "force", s |-> last]) /\ last' = <<>>
            /\ act' = [op |-> "get"] /\ UNCHANGED <<sinit, open>>
\* EXIT, or the connection ends, between or within messages
Leave(how) == /\ open /\ open' = FALSE /\ Post([t |-> how])
              /\ act' = [op |-> how] /\ UNCHANGED <<sinit, last, expect>>
\* the server reads an answer
Recv == /\ open /\ back # <<>> /\ back' = Tail(back) /\ expect' = Tail(expect)
        /\ act' = [op |-> "recv"]
        /\ UNCHANGED <<setup, wire, dinit, held, gone, sinit, last, open>>

---- (* the driver *)
Handle == /\ ~gone /\ wire # <<>> /\ wire' = Tail(wire)
          /\ LET m == Head(wire) IN
             CASE m.t = "status" -> /\ back' = Append(back, [t |-> "status", w |-> Word(dinit, held)])
                                    /\ UNCHANGED <<dinit, held, gone>>
               [] m.t = "init" -> dinit' = TRUE /\ UNCHANGED <<back, held, gone>>
               [] m.t = "pos" -> IF setup.push
                                 THEN back' = Append(back, [t |-> "force", s |-> m.s]) /\ UNCHANGED <<dinit, held, gone>>
                                 ELSE held' = m.s /\ UNCHANGED <<back, dinit, gone>>
               [] m.t = "get" -> /\ back' = Append(back, [t |-> "force", s |-> held]) /\ held' = <<>>
                                 /\ UNCHANGED <<dinit, gone>>
               [] OTHER -> gone' = TRUE /\ UNCHANGED <<back, dinit, held>>
          /\ act' = [op |-> "handle"]
          /\ UNCHANGED <<setup, sinit, last, open, expect>>

---- (* what the server relies on *)
\* every answer is the one the server is entitled to
Faithful == \A i \in 1..Len(back) : back[i] = expect[i]
\* nothing is answered that was not asked, and nothing is left unanswered
Complete == (wire = <<>> /\ ~gone) => Len(back) = Len(expect)
\* the driver leaves only when the server has left
NoDesert == gone => ~open
=============================================================================
