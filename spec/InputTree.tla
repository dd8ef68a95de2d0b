------------------------------ MODULE InputTree ------------------------------
(* Reading a document of nested tags against a schema, and the tree of values *)
(* that results.  A schema is a record of kinds; a kind has attributes and    *)
(* fields (at most once each), dynamic tags (any number of times, their order *)
(* is significant) and possibly a text value.  The document arrives as a      *)
(* sequence of events: open a tag, an attribute, the text, close.             *)
(* An attribute or text comes with a class: "ok", "bad" (cannot be converted  *)
(* to the type) or "out" (converted, but outside the options of the schema),  *)
(* and with a value.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
    setup,    \* [root |-> kind, kinds |-> record of kinds], never changes
    stack,    \* open nodes, outermost first
    bad,      \* the document has to be rejected
    given,    \* values given explicitly: [p |-> path, v |-> value]
    dyn,      \* paths of the dynamic nodes (each with its number among its siblings)
    opened,   \* paths of all nodes of the document
    phase     \* "reading", "read", "accepted", "rejected"
tvars == <<setup, stack, bad, given, dyn, opened, phase>>
Kind(k) == setup.kinds[k]
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
PathOf(s) == [i \in 1..Len(s) |-> s[i].nm]
Frame(nm, k) == [nm |-> nm, k |-> k, got |-> {}, nd |-> 0]
Start == /\ stack = <<Frame("", setup.root)>> /\ bad = FALSE /\ given = {} /\ dyn = {} /\ opened = {<<"">>}
         /\ phase = "reading"
Open(tag) ==
    /\ phase = "reading" /\ stack # <<>>
    /\ LET k == Kind(Top.k) IN
       IF tag \in DOMAIN k.fields
       THEN /\ stack' = Append(SetTop([Top EXCEPT !.got = @ \cup {<<"f", tag>>}]), Frame(tag, k.fields[tag]))
            /\ UNCHANGED <<bad, dyn>>
       ELSE IF tag \in DOMAIN k.dynamic
       THEN LET nm == tag \o "#" \o ToString(Top.nd + 1)
                s == Append(SetTop([Top EXCEPT !.nd = @ + 1]), Frame(nm, k.dynamic[tag])) IN
            stack' = s /\ dyn' = dyn \cup {PathOf(s)} /\ UNCHANGED bad
       ELSE \* no such field: whatever follows, the input is refused
            stack' = Append(stack, Frame(tag, "?")) /\ bad' = TRUE /\ UNCHANGED dyn
    /\ opened' = opened \cup {PathOf(stack')}
    /\ UNCHANGED <<setup, given, phase>>
Wrong(leaf, c) == c = "bad" \/ (c = "out" /\ leaf.options)
Attr(a, c, v) ==
    /\ phase = "reading" /\ stack # <<>>
    /\ LET k == Kind(Top.k) IN
       IF Top.k # "?" /\ a \in DOMAIN k.attribs
       THEN /\ bad' = (bad \/ Wrong(k.attribs[a], c))
            /\ stack' = SetTop([Top EXCEPT !.got = @ \cup {<<"a", a>>}])
            /\ given' = given \cup {[p |-> Append(PathOf(stack), "@" \o a), v |-> v]}
       ELSE bad' = TRUE /\ UNCHANGED <<stack, given>>
    /\ UNCHANGED <<setup, dyn, opened, phase>>
Text(c, v) ==
    /\ phase = "reading" /\ stack # <<>>
    /\ Top.k # "?" /\ Kind(Top.k).leaf
    /\ bad' = (bad \/ Wrong(Kind(Top.k), c))
    /\ given' = given \cup {[p |-> PathOf(stack), v |-> v]}
    /\ UNCHANGED <<setup, stack, dyn, opened, phase>>
\* something mandatory was left out
Lacking(f) == f.k # "?" /\
    LET k == Kind(f.k) IN
    \/ \E a \in DOMAIN k.attribs : k.attribs[a].req /\ <<"a", a>> \notin f.got
    \/ \E g \in DOMAIN k.fields : Kind(k.fields[g]).req /\ <<"f", g>> \notin f.got
Close ==
    /\ phase = "reading" /\ stack # <<>>
    /\ bad' = (bad \/ Lacking(Top))
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ phase' = IF Len(stack) = 1 THEN "read" ELSE phase
    /\ UNCHANGED <<setup, given, dyn, opened>>
Verdict(ok) ==
    /\ phase = "read" /\ ok = ~bad
    /\ phase' = IF bad THEN "rejected" ELSE "accepted"
    /\ UNCHANGED <<setup, stack, bad, given, dyn, opened>>
=============================================================================
