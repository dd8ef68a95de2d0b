------------------------------- MODULE Depend -------------------------------
(* Lazy caching with automatic dependencies (ipi/utils/depend.py).           *)
(*                                                                           *)
(* Primary quantities: scalar a, array A (two cells, possibly written        *)
(* through a view), synchronized pair X / Y (two representations of the same *)
(* data: Y = <<X1+X2 mod M, X2>>).  Derived quantities: c1(a,A), array C(X,c1),    *)
(* c2(c1,Y,C), p (piped from a), c3(p,c2).                                   *)
(*                                                                           *)
(* The implementation keeps, for each derived quantity and for the           *)
(* synchronized peer that was not written last, a cached value and a stale   *)
(* mark; a write pushes stale marks to everything downstream, a read of a    *)
(* stale quantity re-evaluates it (and what it needs, recursively).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Emit

CONSTANTS Vals,         \* values that a write may store
          M             \* modulus of the peer transformation

VARIABLES a, A, X,      \* true current values (X: the synchronized data)
          manual,       \* which peer was written last: "X" or "Y"
          stale,        \* set of quantities marked stale
          cache,        \* cached value of every cacheable quantity
          act           \* last action (label of the transition)

sem == <<a, A, X>>
st  == [a |-> a, A |-> A, X |-> X, manual |-> manual, stale |-> stale, cache |-> cache]
vars == <<a, A, X, manual, stale, cache, act>>
view == <<a, A, X, manual, stale, cache>>

Comp == {"c1", "C", "c2", "p", "c3"}
Peers == {"X", "Y"}
Cacheable == Comp \cup Peers

YofX(x) == <<(x[1] + x[2]) % M, x[2]>>
XofY(y) == <<(y[1] + M - y[2]) % M, y[2]>>
None == "none"         \* the cached value of a stale quantity is irrelevant

Fc1(va, vA) == va + 2*vA[1] + 3*vA[2] + 1
FC(vx, v1) == <<vx[1] + v1, vx[2] + 10*v1>>
Fc2(v1, vy, vC) == v1 + 5*vy[1] + 7*vy[2] + vC[1]
Fc3(vp, v2) == vp + 100*v2

\* the value that a reader must observe, from the primary data alone
True(n) ==
  LET c1 == Fc1(a, A)
      C  == FC(X, c1)
      c2 == Fc2(c1, YofX(X), C)
  IN CASE n = "a" -> a
       [] n = "A" -> A
       [] n = "X" -> X
       [] n = "Y" -> YofX(X)
       [] n = "c1" -> c1
       [] n = "C" -> C
       [] n = "c2" -> c2
       [] n = "p" -> a
       [] n = "c3" -> Fc3(a, c2)

\* direct inputs of each quantity
Deps(n) == CASE n = "c1" -> {"a", "A"}
             [] n = "C" -> {"X", "c1"}
             [] n = "c2" -> {"c1", "Y", "C"}
             [] n = "p" -> {"a"}
             [] n = "c3" -> {"p", "c2"}
             [] OTHER -> {}
Dependants(n) == {m \in Comp : n \in Deps(m)}

RECURSIVE Down(_)
Down(S) == LET T == S \cup UNION {Dependants(n) : n \in S}
           IN IF T = S THEN S ELSE Down(T)

\* quantities evaluated by reading n: stale ones reached through stale inputs
RECURSIVE Need(_, _)
Need(n, s) ==
  IF n \notin s THEN {}
  ELSE {n} \cup UNION {Need(m, s) :
        m \in IF n \in Peers THEN {manual} \ {n} ELSE Deps(n)}

Fresh == [n \in Cacheable |-> True(n)]

Init ==
  /\ a = 0 /\ A = <<0, 0>> /\ X = <<0, 0>>
  /\ manual = "Y"                  \* the peer registered last
  /\ stale = Comp \cup {"X"}
  /\ cache = [n \in Cacheable |-> IF n = "Y" THEN <<0, 0>> ELSE None]
  /\ act = [op |-> "init"]

\* re-evaluation performed by reading quantity n in the present state
Evaluate(n) ==
  LET ev == Need(n, stale)
  IN /\ stale' = stale \ ev
     /\ cache' = [m \in Cacheable |-> IF m \in ev THEN True(m) ELSE cache[m]]

Forget(c, s) == [m \in Cacheable |-> IF m \in s THEN None ELSE c[m]]

Observed(n) == IF n \in {"a", "A"} THEN True(n)
               ELSE IF n \in Need(n, stale) THEN True(n) ELSE cache[n]

Read(n, how) ==
  /\ IF n \in Cacheable THEN Evaluate(n) ELSE UNCHANGED <<stale, cache>>
  /\ UNCHANGED <<a, A, X, manual>>
  /\ act' = [op |-> "read", n |-> n, how |-> how,
             exp |-> Observed(n),
             ev |-> IF n \in Cacheable THEN Need(n, stale) ELSE {}]

\* ---- writes to ordinary primaries
WriteA0(v) ==
  /\ a' = v
  /\ stale' = stale \cup (Down({"a"}) \cap Comp)
  /\ cache' = Forget(cache, stale')
  /\ UNCHANGED <<A, X, manual>>
  /\ act' = [op |-> "write", n |-> "a", cell |-> 0, how |-> "prop", val |-> v]

WriteArr(cell, v, how) ==     \* cell = 0 : whole array
  /\ A' = IF cell = 0 THEN <<v, v>> ELSE [A EXCEPT ![cell] = v]
  /\ stale' = stale \cup (Down({"A"}) \cap Comp)
  /\ cache' = Forget(cache, stale')
  /\ UNCHANGED <<a, X, manual>>
  /\ act' = [op |-> "write", n |-> "A", cell |-> cell, how |-> how, val |-> v]

\* ---- writes to one of the synchronized peers: the other becomes stale.
\* A partial write to a stale peer first brings it up to date, so that the
\* untouched cells keep their meaning.
WritePeer(n, cell, v, how) ==
  LET o == IF n = "X" THEN "Y" ELSE "X"
      cur == True(n)
      new == IF cell = 0 THEN <<v, v>> ELSE [cur EXCEPT ![cell] = v]
  IN /\ X' = IF n = "X" THEN new ELSE XofY(new)
     /\ manual' = n
     /\ stale' = ((stale \ {n}) \cup {o}) \cup (Down({n, o}) \cap Comp)
     /\ cache' = Forget([cache EXCEPT ![n] = new], stale')
     /\ UNCHANGED <<a, A>>
     /\ act' = [op |-> "write", n |-> n, cell |-> cell, how |-> how, val |-> v]

\* ---- writing a derived quantity is refused and changes nothing.  Attribute
\* access to store into one cell of C looks C up first, which refreshes it.
WriteDerived(n) ==
  /\ UNCHANGED <<a, A, X, manual, stale, cache>>
  /\ act' = [op |-> "refuse", n |-> n]

Next ==
  \/ \E n \in Cacheable \cup {"a", "A"} : Read(n, "prop")
  \/ \E n \in {"A", "X", "Y", "C"} : Read(n, "held")     \* reference kept by the caller
  \/ \E n \in {"A", "X", "Y", "C"} : Read(n, "view")     \* views of the cells kept by the caller
  \/ \E n \in {"A", "X", "Y", "C"} : Read(n, "method")   \* array methods of a kept reference
  \/ \E v \in Vals : WriteA0(v)
  \/ \E v \in Vals, c \in 0..2, h \in {"prop", "view", "held"} : WriteArr(c, v, h)
  \/ \E n \in Peers, v \in Vals, c \in 0..2, h \in {"prop", "view", "held"} : WritePeer(n, c, v, h)
  \/ \E n \in {"c1", "C", "c2", "p"} : WriteDerived(n)

Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
\* C06: whatever a reader may observe is the value implied by the primaries
Coherent == \A n \in Cacheable : n \notin stale => cache[n] = True(n)
\* the stale marks are closed downstream, so that pushing can stop early
Closed == \A n \in stale : (Dependants(n) \subseteq stale)
ManualClean == manual \notin stale
\* no evaluation happens unless the quantity was stale (laziness)
LazyReads == [][act'.op = "read" => act'.ev \subseteq stale]_vars
\* a refused write changes nothing
RefuseInert == [][act'.op = "refuse" => UNCHANGED view]_vars
ReadsTrue == [][act'.op = "read" => act'.exp = True(act'.n)]_vars

EmitInit == (act.op = "init") => EmitLine([i |-> st])
EmitTr == EmitLine([f |-> st, a |-> act', t |-> st'])
=============================================================================
