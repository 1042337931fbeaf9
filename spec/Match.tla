------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* Which entries and groups a search finds. A text is a sequence of        *)
(* letters: a and A, b and B are lower and upper case of two letters, s    *)
(* and S of a third that has another lower case form z, and o has no case. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Letters, MaxText, MaxQuery, MaxStrings

Fold(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c \in {"S", "z"} -> "s" [] OTHER -> c
Folded(t) == [i \in 1..Len(t) |-> Fold(t[i])]
Contains(t, q) == \E at \in 0..(Len(t) - Len(q)) : \A i \in 1..Len(q) : t[at + i] = q[i]
Found(t, q) == Contains(Folded(t), Folded(q))

\* An entry is found by its unprotected string values only.
FoundE(strings, q) == \E i \in 1..Len(strings) : ~strings[i].prot /\ Found(strings[i].text, q)

Texts(n) == UNION {[1..k -> Letters] : k \in 0..n}

VARIABLES strings, done
Init == strings = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(strings) < MaxStrings
       /\ \E t \in Texts(MaxText), p \in BOOLEAN : strings' = Append(strings, [prot |-> p, text |-> t])
       /\ UNCHANGED done
Ask == ~done /\ done' = TRUE /\ UNCHANGED strings
Next == Add \/ Ask
Spec == Init /\ [][Next]_<<strings, done>>

-----------------------------------------------------------------------------
\* Case makes no difference, in the text or in the query.
CaseBlind == \A q \in Texts(MaxQuery) : FoundE(strings, q) = FoundE(strings, Folded(q))
\* The empty query finds every entry with an unprotected string value.
EmptyQuery == FoundE(strings, <<>>) <=> \E i \in 1..Len(strings) : ~strings[i].prot
\* What finds an entry still does when it is cut.
Monotone == \A q \in Texts(MaxQuery) : (q # <<>> /\ FoundE(strings, q)) => FoundE(strings, Tail(q)) /\ FoundE(strings, SubSeq(q, 1, Len(q) - 1))
Protected == (\A i \in 1..Len(strings) : strings[i].prot) => \A q \in Texts(MaxQuery) : ~FoundE(strings, q)

Emit == done => PrintT(ToJson([strings |-> strings,
                               found |-> {q \in Texts(MaxQuery) : FoundE(strings, q)},
                               missed |-> {q \in Texts(MaxQuery) : ~FoundE(strings, q)}]))
=============================================================================
