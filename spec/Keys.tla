-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Composite keys, and which of them opens which file.                     *)
(*                                                                         *)
(* A byte string is a sequence of items: a character <<"c", x>>, or the    *)
(* digest <<"h", s>> of a byte string s (32 bytes). The hash function is   *)
(* taken to be one-to-one, so two keys are the same exactly when their     *)
(* terms are. The terms show the coincidences that KDBX 3.1 has: a key     *)
(* file that holds the digest of a password is the same key as that        *)
(* password.                                                               *)
(*                                                                         *)
(* The state is a database with its current key, the files that were       *)
(* saved, and the history. Files can also be written by another program.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Family, \* "pairs", "near", "rounds", "histories"
          MaxOps

C(x) == <<"c", x>>
H(s) == <<"h", s>>
Str(s) == [i \in 1..Len(s) |-> C(s[i])]

\* The bytes that are hashed, and the key.
Material(k) == CASE k.kind = "password" -> <<H(k.p)>>
                 [] k.kind = "file" -> k.f
                 [] k.kind = "both" -> <<H(k.p)>> \o k.f
Composite(k) == H(Material(k))

Pw(p) == [kind |-> "password", p |-> p, f |-> <<>>]
Kf(f) == [kind |-> "file", p |-> <<>>, f |-> f]
Both(p, f) == [kind |-> "both", p |-> p, f |-> f]

Passwords == { <<>>, Str(<<"a">>), Str(<<"A">>), Str(<<"b">>), Str(<<"a", "b">>), Str(<<"b", "a">>), Str(<<"a", "a">>),
               Str(<<"a", "space">>), Str(<<"space", "a">>), Str(<<"a", "nul">>), Str(<<"composed">>), Str(<<"decomposed">>), Str(<<"newline", "a">>) }
\* "block 1" and "block 2" are 32 bytes each.
Contents == { <<>>, Str(<<"a">>), Str(<<"block 1">>), Str(<<"block 2">>), Str(<<"block 1", "block 2">>), Str(<<"nul">>),
              <<H(<<>>)>>, <<H(Str(<<"a">>))>>, <<H(Str(<<"b">>))>>, <<H(Str(<<"a">>)), C("block 1")>>, <<H(Str(<<"a">>)), H(Str(<<"b">>))>>,
              <<H(Str(<<"block 1">>))>>, <<H(<<H(Str(<<"a">>))>>)>>, <<C("block 1"), H(Str(<<"a">>))>> }
Keys == {Pw(p) : p \in Passwords} \cup {Kf(f) : f \in Contents} \cup {Both(p, f) : p \in Passwords, f \in Contents}
Few == {Pw(p) : p \in {<<>>, Str(<<"a">>), Str(<<"A">>), Str(<<"b">>)}}
       \cup {Kf(f) : f \in {Str(<<"block 1">>), <<H(Str(<<"a">>))>>, <<H(Str(<<"a">>)), C("block 1")>>}}
       \cup {Both(p, f) : p \in {<<>>, Str(<<"a">>)}, f \in {Str(<<"block 1">>), Str(<<"block 2">>)}}

\* A long password or key file, and what differs from it in one place.
Lengths == {1, 2, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 100}
Long(n) == [i \in 1..n |-> C(IF i % 3 = 0 THEN "b" ELSE "a")]
Near(s) == {[s EXCEPT ![i] = C("z")] : i \in 1..Len(s)}
           \cup {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in {1, Len(s), (Len(s) + 1) \div 2}}
           \cup {SubSeq(s, 1, i) \o <<C("z")>> \o SubSeq(s, i + 1, Len(s)) : i \in {0, Len(s), Len(s) \div 2}}
           \cup {SubSeq(s, 1, Len(s) \div 2), s \o s, s}
\* The same with long ones, at a few places only.
BigLengths == {127, 128, 129, 255, 256, 257, 512, 513, 1024, 1025, 4096}
NearBig(s) == LET n == Len(s) IN
  {[s EXCEPT ![i] = C("z")] : i \in {1, n \div 2, n - 1, n}} \cup {SubSeq(s, 1, n - 1), Append(s, C("z")), SubSeq(s, 1, n \div 2), s}
\* One character more, of the kinds that programs like to remove or to change.
Special == {"space", "newline", "cr", "tab", "nul", "bom", "nbsp", "zwj", "combining", "emoji", "quote", "percent", "backslash", "esc", "repl", "wide"}
Decorated == UNION {{<<s, SubSeq(s, 1, i) \o <<C(x)>> \o SubSeq(s, i + 1, Len(s))>> : i \in 0..Len(s), x \in Special}
                    : s \in {<<>>, Str(<<"a">>), Str(<<"a", "b">>)}}
\* Texts that look alike, or that some programs take to be the same.
Alike == {{"composed", "decomposed"}, {"space", "nbsp"}, {"space", "ideographic space"}, {"quote", "curly quote"}, {"A ring", "angstrom"},
          {"mu", "micro"}, {"K", "kelvin"}, {"s", "long s"}, {"ss", "sharp s"}, {"fi", "ligature fi"}, {"syllable", "jamo"}, {"hyphen", "soft hyphen"},
          {"hyphen", "dash"}, {"minus", "hyphen"}, {"1", "wide 1"}, {"1", "arabic 1"}, {"sigma", "final sigma"}, {"newline", "cr newline"}, {"newline", "cr"},
          {"heart", "heart emoji"}, {"i", "dotless i"}, {"i", "dotted i"}, {"half", "1/2"}, {"cyrillic a", "a latin"}, {"", "zwj"}, {"", "zwsp"},
          {"two accents", "accents swapped"}, {"omega", "ohm"}}
AlikePairs == UNION {{<<Str(w \o <<x>> \o v), Str(w \o <<y>> \o v)>> : x \in ab, y \in ab, w \in {<<>>, <<"b">>}, v \in {<<>>, <<"b">>}} : ab \in Alike}
Kinds(s, t) == {<<Pw(s), Pw(t)>>, <<Kf(s), Kf(t)>>, <<Both(s, Str(<<"block 1">>)), Both(t, Str(<<"block 1">>))>>,
                <<Both(Str(<<"a">>), s), Both(Str(<<"a">>), t)>>}
MorePairs == UNION {UNION {Kinds(s, t) : t \in NearBig(s)} : s \in {Long(n) : n \in BigLengths}}
             \cup UNION {Kinds(q[1], q[2]) \cup Kinds(q[2], q[1]) \cup Kinds(q[2], q[2]) : q \in Decorated}
             \cup UNION {Kinds(q[1], q[2]) : q \in AlikePairs}
NearPairs == MorePairs \cup UNION {UNION {Kinds(s, t) : t \in Near(s)} : s \in {Long(n) : n \in Lengths}}

\* Numbers of transform rounds, which change the file but not which key opens it.
Rounds == {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023,
           1024, 1025, 2000, 4095, 4096, 4097, 5000, 5999, 6000, 6001, 8191, 8192, 9999, 10000, 10001, 32767, 32768, 32769, 50000, 60000, 65535, 65536,
           65537, 99999, 100000, 100001, 131071, 131072, 250000, 262145, 500000, 500001, 999999, 1000000, 1000001, 1048575, 1048576, 1048577, 2000001,
           4194305, 5000001, 10000001, 16777215, 16777217}

-----------------------------------------------------------------------------
VARIABLES key,    \* of the database in memory; <<>> for none
          files,  \* the keys that the files were saved with
          hist
vars == <<key, files, hist>>

Do(o) == hist' = Append(hist, o)
\* The rounds that the file is saved with; <<>> for any.
OpR(name, k, f, ok, rounds) == [op |-> name, k |-> k, file |-> f, ok |-> ok, rounds |-> rounds]
Op(name, k, f, ok) == OpR(name, k, f, ok, <<>>)
NoKey == Pw(<<>>)

Set(k) == key' = <<k>> /\ UNCHANGED files /\ Do(Op("set", k, 0, TRUE))
SaveR(rounds) == key # <<>> /\ files' = Append(files, Composite(key[1])) /\ UNCHANGED key /\ Do(OpR("save", key[1], Len(files) + 1, TRUE, rounds))
Save == SaveR(<<>>)
\* Another program saves a file.
ForeignR(k, rounds) == files' = Append(files, Composite(k)) /\ UNCHANGED key /\ Do(OpR("foreign", k, Len(files) + 1, TRUE, rounds))
Foreign(k) == ForeignR(k, <<>>)
Open(i, k) == LET ok == Composite(k) = files[i]
              IN /\ key' = IF ok THEN <<k>> ELSE key
                 /\ UNCHANGED files /\ Do(Op("open", k, i, ok))

Init == key = <<>> /\ files = <<>> /\ hist = <<>>
Pairs == Family = "pairs" /\
  \/ hist = <<>> /\ \E k \in Keys : Set(k)
  \/ Len(hist) = 1 /\ Save
  \/ Len(hist) = 2 /\ \E k \in Keys : Open(1, k)
NearOf == [k \in {q[1] : q \in NearPairs} |-> {q[2] : q \in {q \in NearPairs : q[1] = k}}]
Close == Family = "near" /\
  \/ hist = <<>> /\ \E k \in DOMAIN NearOf : Foreign(k)
  \/ Len(hist) = 1 /\ \E k \in NearOf[hist[1].k] : Open(1, k)
  \/ Len(hist) = 2 /\ (IF key = <<>> THEN Open(1, hist[1].k) ELSE Save)
\* A file of this program and one of another one with each number of rounds.
ManyRounds == Family = "rounds" /\
  \/ hist = <<>> /\ Set(Pw(Str(<<"a">>)))
  \/ Len(hist) = 1 /\ \E r \in Rounds : SaveR(<<r>>) \/ ForeignR(key[1], <<r>>)
  \/ Len(hist) = 2 /\ \E k \in {Pw(Str(<<"a">>)), Pw(Str(<<"A">>))} : Open(1, k)
Walk == Family = "histories" /\ Len(hist) < MaxOps /\
  \E k \in {RandomElement(Few)}, n \in {RandomElement(1..10)}, i \in {IF files = <<>> THEN 0 ELSE RandomElement(1..Len(files))} :
    CASE key = <<>> /\ files = <<>> -> Set(k)
      [] n \in {1, 2} /\ key # <<>> -> Save
      [] n = 3 -> Foreign(k)
      [] n \in {4, 5} -> Set(k)
      [] n \in {6, 7} /\ files # <<>> -> \E q \in {RandomElement({q \in Few : Composite(q) = files[i]})} : Open(i, q)
      [] i # 0 -> Open(i, k)
      [] OTHER -> Save
Next == Pairs \/ Close \/ ManyRounds \/ Walk
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == Len(hist) = (IF Family \in {"pairs", "near", "rounds"} THEN 3 ELSE MaxOps)
\* A file keeps the key that the database had when it was saved: the last one
\* set, or used to open a file, before.
Last(S) == CHOOSE n \in S : \A m \in S : m <= n
SavedWith == \A j \in 1..Len(hist) : hist[j].op = "save" =>
               LET i == Last({i \in 1..(j - 1) : hist[i].op = "set" \/ (hist[i].op = "open" /\ hist[i].ok)})
               IN files[hist[j].file] = Composite(hist[i].k)
\* A key that is built the same way from the same parts opens the file.
SameOpens == \A j \in 1..Len(hist) : hist[j].op = "open" /\ ~hist[j].ok =>
               ~ \E i \in 1..(j - 1) : hist[i].op \in {"save", "foreign"} /\ hist[i].file = hist[j].file /\ hist[i].k = hist[j].k
\* Two passwords, or two key files, are the same key only when they are equal.
OneToOne == /\ \A p, q \in Passwords : p # q => Composite(Pw(p)) # Composite(Pw(q))
            /\ \A f, g \in Contents : f # g => Composite(Kf(f)) # Composite(Kf(g))
            /\ \A p, q \in Passwords : \A f \in Contents : p # q => Composite(Both(p, f)) # Composite(Both(q, f))
            /\ \A p \in Passwords : \A f, g \in Contents : f # g => Composite(Both(p, f)) # Composite(Both(p, g))
\* The coincidences: keys of different parts with the same material.
Coincide == \A k, m \in Few : Composite(k) = Composite(m) /\ k # m =>
              \/ {k.kind, m.kind} = {"password", "file"} \/ {k.kind, m.kind} = {"file", "both"} \/ {k.kind, m.kind} = {"password", "both"}
ASSUME OneToOne /\ Coincide
Emit == Done => PrintT(ToJson([hist |-> hist]))
=============================================================================
