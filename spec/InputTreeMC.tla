----------------------------- MODULE InputTreeMC -----------------------------
(* All documents up to a size over a small schema with every kind of entry.  *)
EXTENDS InputTree, Emit
CONSTANTS MaxLen, MaxDepth, MaxFaults, Wide
VARIABLES hist, act
L(req, opt) == [req |-> req, options |-> opt]
IntV == [req |-> FALSE, options |-> FALSE, leaf |-> TRUE, attribs |-> <<>>, fields |-> <<>>, dynamic |-> <<>>]
TheSchema == [root |-> "root",
    kinds |-> [
      root |-> [req |-> TRUE, options |-> FALSE, leaf |-> FALSE,
                attribs |-> [m |-> L(FALSE, TRUE), q |-> L(TRUE, FALSE)],
                fields |-> [n |-> "int", r |-> "rint", o |-> "opt", sub |-> "sub"],
                dynamic |-> [item |-> "item", box |-> "sub"]],
      sub |-> [req |-> FALSE, options |-> FALSE, leaf |-> FALSE,
                attribs |-> [w |-> L(FALSE, FALSE)], fields |-> [n |-> "int", o |-> "opt"], dynamic |-> [item |-> "item"]],
      int |-> IntV, rint |-> [IntV EXCEPT !.req = TRUE], opt |-> [IntV EXCEPT !.options = TRUE],
      item |-> [IntV EXCEPT !.req = TRUE]]]
Tags == {"n", "r", "o", "sub", "item", "box", "zzz"}
Atts == {"m", "q", "w", "zzz"}
Init == setup = TheSchema /\ Start /\ hist = <<>> /\ act = [op |-> "init"]
Do(a) == act' = a /\ hist' = Append(hist, a)
\* the environment: a field or attribute occurs at most once in its parent (a
\* repetition is outside what the documentation defines)
Fresh(x) == x \notin Top.got
NoText == \A x \in given : x.p # PathOf(stack)
Ints == {<<"ok", "5">>, <<"bad", "junk">>} \cup IF Wide THEN {<<"ok", "3">>} ELSE {}
Opts == {<<"ok", "b">>, <<"out", "c">>} \cup IF Wide THEN {<<"ok", "a">>} ELSE {}
ValsOf(k) == IF k = "opt" THEN Opts ELSE Ints
AValsOf(a) == CASE a = "m" -> Opts [] a = "q" -> Ints [] a = "w" -> Ints [] OTHER -> {<<"ok", "1">>}
Rank(a) == CASE a = "m" -> 1 [] a = "q" -> 2 [] a = "w" -> 3 [] OTHER -> 4
\* how many things are wrong with the document so far (apart from omissions)
Faults(h) == Cardinality({i \in 1..Len(h) : \/ h[i].op \in {"attr", "text"} /\ h[i].c # "ok"
                                            \/ h[i].op = "attr" /\ h[i].a = "zzz"
                                            \/ h[i].op = "open" /\ h[i].tag = "zzz"})
Room == Len(hist) + Len(stack) < MaxLen
Next ==
    \/ \E t \in Tags : /\ Room /\ Len(stack) < MaxDepth /\ phase = "reading" /\ Fresh(<<"f", t>>)
                       /\ Top.k # "?" => ~Kind(Top.k).leaf
                       /\ Top.k # "?"
                       /\ Open(t) /\ Do([op |-> "open", tag |-> t])
    \/ \E a \in Atts : /\ Room /\ phase = "reading" /\ stack # <<>>
                       \* attributes come first, in a fixed order
                       /\ IF act.op = "attr" THEN Rank(a) > Rank(act.a) ELSE act.op \in {"init", "open"}
                       /\ Top.k \in {"root", "sub"} \/ (a = "zzz" /\ Wide)
                       /\ \E v \in AValsOf(a) : Attr(a, v[1], v[2]) /\ Do([op |-> "attr", a |-> a, c |-> v[1], v |-> v[2]])
    \/ /\ phase = "reading" /\ stack # <<>> /\ Top.k # "?" /\ Kind(Top.k).leaf /\ act.op \in {"open", "attr"} /\ NoText
       /\ \E v \in ValsOf(Top.k) : Text(v[1], v[2]) /\ Do([op |-> "text", c |-> v[1], v |-> v[2]])
    \/ /\ phase = "reading" /\ stack # <<>> /\ (Top.k # "?" /\ Kind(Top.k).leaf) => act.op = "text"
       /\ Close /\ Do([op |-> "close"])
    \/ Verdict(~bad) /\ act' = [op |-> "done", ok |-> ~bad] /\ hist' = hist
Budget == Faults(hist) <= MaxFaults
Spec == Init /\ [][Next]_<<tvars, hist, act>>
----------------------------------------------------------------------------
(* declarative reading of a whole document, independent of the machine       *)
RECURSIVE Ups(_, _)
\* stack of tags open after i events, outermost first (without the root)
Ups(h, i) == IF i = 0 THEN <<>> ELSE
    LET s == Ups(h, i - 1) IN
    CASE h[i].op = "open" -> Append(s, h[i].tag)
      [] h[i].op = "close" -> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
      [] OTHER -> s
KindAt(s) == CASE s = <<>> -> "root" [] OTHER ->
    LET p == IF Len(s) = 1 THEN "root" ELSE IF s[1] \in {"sub", "box"} THEN "sub" ELSE "?"
        t == s[Len(s)] IN
    CASE p = "root" /\ t \in {"sub", "box"} -> "sub"
      [] p = "root" /\ t = "r" -> "rint"
      [] t = "item" /\ p # "?" -> "item" [] t = "n" /\ p # "?" -> "int" [] t = "o" /\ p # "?" -> "opt"
      [] OTHER -> "?"
Accepts(h) ==
    /\ \A i \in 1..Len(h) :
        LET k == KindAt(Ups(h, i)) IN
        /\ k # "?"
        /\ h[i].op = "attr" => /\ (k = "root" /\ h[i].a \in {"m", "q"}) \/ (k = "sub" /\ h[i].a = "w")
                               /\ h[i].c = "ok"
        /\ h[i].op = "text" => h[i].c = "ok"
    /\ \E i \in 1..Len(h) : h[i].op = "attr" /\ h[i].a = "q" /\ Ups(h, i) = <<>>
    /\ \E i \in 1..Len(h) : h[i].op = "open" /\ h[i].tag = "r" /\ Ups(h, i) = <<"r">>
RightVerdict == phase \in {"accepted", "rejected"} => ((phase = "accepted") = Accepts(hist))
RejectSticky == [][bad => bad']_<<tvars>>
NothingLost == phase = "accepted" => Cardinality(given) = Cardinality({i \in 1..Len(hist) : hist[i].op \in {"attr", "text"}})
EmitDone == act.op = "done" => EmitLine([h |-> hist, ok |-> act.ok, given |-> given])
=============================================================================
