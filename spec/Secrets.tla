------------------------------- MODULE Secrets -------------------------------
(***************************************************************************)
(* What can be seen of the values of a database, in its debug output, in   *)
(* its file, and in the XML inside of the file.                            *)
(*                                                                         *)
(* A value is a number. An observer has terms, and derives what follows    *)
(* from them: it opens an encryption when it has the key, and takes a key  *)
(* stream off when it has the key of the stream. Every slot is absent, or  *)
(* holds a value that is plain or protected.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Family, \* "one", "two", "histories"
          MaxOps

Places == {"root", "sub", "sub2", "deep", "hist"}
Strings == {"title", "username", "password", "url", "notes", "other", "other2"}
Binaries == {"bin", "bin2"}
Slots == Places \X (Strings \cup Binaries)
\* Text that is never protected.
Public == {<<"meta", f>> : f \in {"name", "description", "username", "data key", "data value", "pool", "icon"}}
          \cup {<<p, f>> : p \in {"root group", "sub group", "deep group"}, f \in {"name", "notes", "sequence"}}
          \cup {<<p, f>> : p \in Places, f \in {"tags", "override", "sequence", "window", "key", "binary key"}}
Classes(s) == IF s[2] \in Binaries \cup {"pool", "icon"} THEN {"bytes", "long bytes"} ELSE {"ascii", "letters", "markup", "long"}
Few(s) == IF s[2] \in Binaries \cup {"pool", "icon"} THEN {"bytes"} ELSE {"ascii"}

Absent == [state |-> "absent", v |-> 0]

VARIABLES doc,   \* slot -> [state, v]
          pub,   \* public slot -> value, 0 for none
          key,   \* number of the key
          n,     \* values and keys that were made
          gzip,
          hist
vars == <<doc, pub, key, n, gzip, hist>>

-----------------------------------------------------------------------------
\* Observations.
Value(x) == <<"value", x>>
Key(k) == <<"key", k>>
Stream(i) == <<"stream", i>>   \* the i-th part of the key stream
StreamKey == <<"stream key">>

Content(d, p) == {Value(d[s].v) : s \in {s \in Slots : d[s].state = "plain"}} \cup {Value(p[s]) : s \in {s \in Public : p[s] # 0}}
\* Protected values in some order: the part of the stream is the slot itself.
Covered(d) == {<<"xor", Stream(s), Value(d[s].v)>> : s \in {s \in Slots : d[s].state = "protected"}}
Xml(d, p) == Content(d, p) \cup Covered(d)
\* The header has the seeds and the key of the stream; seeds are no secret.
File(d, p, k) == {StreamKey} \cup {<<"enc", <<"master", Key(k)>>, x>> : x \in Xml(d, p)}
Debug(d, p) == Content(d, p)
\* A broken file: its reader has the key and takes the stream off, so it knows
\* every value when it fails. What the error tells has at most the plain ones.
Damages == {"no text", "no base64", "no attribute", "cut", "end tag", "nested", "entity", "no key", "no identifier", "no number", "no date", "no boolean",
            "no document", "two roots", "header hash", "block hash", "block number", "start bytes", "last bytes", "half", "unknown", "no compressed data", "failing reader", "failing writer"}
Told(d, p) == Content(d, p)

Analz(K) ==
  LET streams == IF StreamKey \in K THEN {Stream(s) : s \in Slots} ELSE {}
      opened == {t[3] : t \in {t \in K : t[1] = "enc" /\ (t[2] \in K \/ t[2][2] \in K)}}
      two == K \cup streams \cup opened
  IN two \cup {t[3] : t \in {t \in two : t[1] = "xor" /\ t[2] \in two}}

Seen(K) == {x \in 0..n : Value(x) \in Analz(K)}
Keys(K) == {x \in 0..n : Key(x) \in Analz(K)}
Plain == {doc[s].v : s \in {s \in Slots : doc[s].state = "plain"}} \cup ({pub[s] : s \in Public} \ {0})
Protected == {doc[s].v : s \in {s \in Slots : doc[s].state = "protected"}}

\* The invariants.
FileHidesAll == Seen(File(doc, pub, key)) = {} /\ Keys(File(doc, pub, key)) = {}
DebugHides == Seen(Debug(doc, pub)) = Plain /\ Keys(Debug(doc, pub)) = {}
XmlHides == Seen(Xml(doc, pub)) = Plain /\ Keys(Xml(doc, pub)) = {}
OwnerSeesAll == Seen(File(doc, pub, key) \cup {Key(key)}) = Plain \cup Protected
ErrorHides == Seen(Told(doc, pub)) \subseteq Plain /\ Keys(Told(doc, pub)) = {}
OldKeyIsUseless == \A k \in 0..n : k # key => Seen(File(doc, pub, key) \cup {Key(k)}) = {}

-----------------------------------------------------------------------------
\* What may be seen after a step; everything else that was ever made may not.
Do(op, s, state, class, d2, p2, k2, v, g2) ==
  /\ doc' = d2 /\ pub' = p2 /\ key' = k2 /\ gzip' = g2
  /\ hist' = Append(hist, [op |-> op, slot |-> s, state |-> state, class |-> class, v |-> v, gzip |-> g2,
                           broken |-> IF Family = "one" THEN Damages ELSE IF Family = "two" THEN {} ELSE {RandomElement(Damages)},
                           shown |-> ({d2[x].v : x \in {x \in Slots : d2[x].state = "plain"}} \cup {p2[x] : x \in Public}) \ {0},
                           covered |-> {d2[x].v : x \in {x \in Slots : d2[x].state = "protected"}}])

Put(s, state, class) ==
  n' = n + 1 /\ Do("put", s, state, class, [doc EXCEPT ![s] = [state |-> state, v |-> n + 1]], pub, key, n + 1, gzip)
PutPublic(s, class) ==
  n' = n + 1 /\ Do("public", s, "plain", class, doc, [pub EXCEPT ![s] = n + 1], key, n + 1, gzip)
\* The same value, protected or no longer.
Turn(s) == doc[s].state # "absent" /\ n' = n /\
  LET t == IF doc[s].state = "plain" THEN "protected" ELSE "plain"
  IN Do("turn", s, t, "", [doc EXCEPT ![s].state = t], pub, key, doc[s].v, gzip)
Drop(s) == n' = n /\ Do("drop", s, "absent", "", [doc EXCEPT ![s] = Absent], pub, key, 0, gzip)
\* The entry becomes its own history entry.
Keep == n' = n /\ Do("keep", <<"sub", "">>, "", "", [s \in Slots |-> IF s[1] = "hist" THEN doc[<<"sub", s[2]>>] ELSE doc[s]],
                     [s \in Public |-> IF s[1] = "hist" THEN pub[<<"sub", s[2]>>] ELSE pub[s]], key, 0, gzip)
NewKey(how) == n' = n + 1 /\ Do("key", <<"", "">>, "", how, doc, pub, n + 1, n + 1, gzip)
Reopen == n' = n /\ Do("reopen", <<"", "">>, "", "", doc, pub, key, 0, gzip)
Copy == n' = n /\ Do("clone", <<"", "">>, "", "", doc, pub, key, 0, gzip)
Gzip == n' = n /\ Do("gzip", <<"", "">>, "", "", doc, pub, key, 0, ~gzip)

Init == doc = [s \in Slots |-> Absent] /\ pub = [s \in Public |-> 0] /\ key = 0 /\ n = 0 /\ gzip \in BOOLEAN /\ hist = <<>>
States == {"plain", "protected"}
How == {"password", "file", "both", "long password"}
One == Family = "one" /\
  \/ hist = <<>> /\ (\/ \E s \in Slots, t \in States : \E c \in Classes(s) : Put(s, t, c)
                     \/ \E s \in Public : \E c \in Classes(s) : PutPublic(s, c)
                     \/ \E h \in How : NewKey(h))
  \/ Len(hist) = 1 /\ (Reopen \/ Keep \/ (hist[1].op = "put" /\ Turn(hist[1].slot)))
Two == Family = "two" /\ gzip /\
  \/ hist = <<>> /\ \E s \in Slots, t \in States : \E c \in Few(s) : Put(s, t, c)
  \/ Len(hist) = 1 /\ \E s \in Slots \ {hist[1].slot}, t \in States : \E c \in Few(s) : Put(s, t, c)
Pick(S) == RandomElement(S)
Walk == Family = "histories" /\ Len(hist) < MaxOps /\
  \E op \in {Pick({"put", "put", "put 2", "put 3", "public", "turn", "drop", "keep", "key", "reopen", "clone", "gzip"})}, s \in {Pick(Slots)}, q \in {Pick(Public)}, t \in {Pick(States)}, h \in {Pick(How)} :
    \E c \in {Pick(Classes(s))}, c2 \in {Pick(Classes(q))} :
      CASE op \in {"put", "put 2", "put 3"} -> Put(s, t, c)
        [] op = "public" -> PutPublic(q, c2)
        [] op = "turn" -> (IF doc[s].state = "absent" THEN Put(s, t, c) ELSE Turn(s))
        [] op = "drop" -> Drop(s)
        [] op = "keep" -> Keep
        [] op = "key" -> NewKey(h)
        [] op = "reopen" -> Reopen
        [] op = "clone" -> Copy
        [] op = "gzip" -> Gzip
Next == One \/ Two \/ Walk
Spec == Init /\ [][Next]_vars

Done == Len(hist) = (IF Family \in {"one", "two"} THEN 2 ELSE MaxOps)
Emit == Done => PrintT(ToJson([hist |-> hist]))
=============================================================================
