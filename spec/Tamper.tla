-------------------------------- MODULE Tamper --------------------------------
(***************************************************************************)
(* A saved file, what can be done to it, and what a reader makes of it.    *)
(*                                                                         *)
(* The header is a sequence of fields. The payload is encrypted in a chain *)
(* of blocks: a block comes out right only after the block that it was     *)
(* encrypted after. Inside are the start bytes, data blocks with numbers   *)
(* and hashes, and the final block; the data has the hash of the header.   *)
(* Values are terms, <<"a", x>> of the saved file, <<"b", x>> of another,  *)
(* or <<"changed", t>>. Hashes are one-to-one.                             *)
(*                                                                         *)
(* Changes are made from outside, without the key, or inside: the payload  *)
(* is taken out, changed so that it does not fit, and encrypted again.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Family, \* "changes", "walk", "bytes"
          MaxOps

Fields == << "version", "comment", "cipher", "compression", "master seed", "transform seed", "rounds", "iv", "stream key", "stream cipher", "start bytes" >>
Range(f) == {f[x] : x \in DOMAIN f}
A(x) == <<"a", x>>
B(x) == <<"b", x>>
Changed(t) == <<"changed", t>>

\* What is the same in every file that the library saves.
Common(x) == x \in {"cipher", "stream cipher", "version"}
HeaderOf(w) == [i \in 1..Len(Fields) |-> <<Fields[i], IF w = "b" /\ ~Common(Fields[i]) THEN B(Fields[i]) ELSE A(Fields[i])>>]

\* The value of a field, the last one counting; <<>> when it is missing.
Get(h, f) == LET S == {i \in 1..Len(h) : h[i][1] = f} IN IF S = {} THEN <<>> ELSE h[CHOOSE i \in S : \A j \in S : j <= i][2]
\* The key that the payload is encrypted with.
KeyOf(h) == <<Get(h, "master seed"), Get(h, "transform seed"), Get(h, "rounds")>>

\* Payload: start bytes, blocks [n, hash, data, size], final [n, hash]. The
\* data of a block is a piece of content; the first has the header hash.
Data(w, i) == <<"data", w, i>>
Hash(t) == <<"hash", t>>
PayloadOf(w) == [start |-> Get(HeaderOf(w), "start bytes"),
                 blocks |-> [i \in 1..3 |-> [n |-> i - 1, hash |-> Hash(Data(w, i)), data |-> Data(w, i)]],
                 \* with numbers 0.. and nothing after the last
                 final |-> [n |-> 3, hash |-> <<"zero">>],
                 header |-> Hash(HeaderOf(w)), with |-> "nothing"]

\* The ciphertext: blocks 1, 2 the start bytes; 3..8 the data blocks, 9, 10
\* the final one; each is known by its place in the payload that was encrypted.
Blocks == 10
Chain(p, k, iv) == [p |-> p, k |-> k, iv |-> iv, c |-> [i \in 1..Blocks |-> <<"c", i>>], tail |-> "none"]

VARIABLES header, cipher, ops,
          at      \* one place, of which every change of a byte is made
vars == <<header, cipher, ops, at>>

-----------------------------------------------------------------------------
\* The reader.
Saved == [content |-> "a", settings |-> [f \in {"version", "comment", "compression", "rounds"} |-> Get(HeaderOf("a"), f)]]
Err == [content |-> "error", settings |-> <<>>]

\* Whether the blocks come out as they were encrypted.
Right == /\ Len(cipher.c) >= Blocks
         /\ \A i \in 1..Blocks : cipher.c[i] = <<"c", i>>
         /\ cipher.k = KeyOf(header)
         /\ cipher.iv = Get(header, "iv")
         \* the padding, at the end of the last block
         /\ cipher.tail \in {"none", "whole blocks"}
\* The whole of the other file.
Other == /\ header = HeaderOf("b") /\ Len(cipher.c) >= Blocks
         /\ \A i \in 1..Blocks : cipher.c[i] = B(i)
         /\ cipher.tail \in {"none", "whole blocks"}
Reads(p) ==
  /\ p.start = Get(header, "start bytes")
  /\ \A i \in 1..Len(p.blocks) : p.blocks[i].n = i - 1 /\ p.blocks[i].hash = Hash(p.blocks[i].data)
  /\ p.final = [n |-> Len(p.blocks), hash |-> <<"zero">>]
  /\ p.header = Hash(header)
Known == \A i \in 1..Len(header) : header[i][1] \in Range(Fields)
Open ==
  LET p == cipher.p IN
  IF ~Known \/ (\E f \in Range(Fields) \ {"comment"} : Get(header, f) = <<>>) THEN Err
  ELSE IF \E f \in {"cipher", "stream cipher"} : Get(header, f) # A(f) THEN Err
  ELSE IF Other THEN [Saved EXCEPT !.content = "b"]
  ELSE IF ~Right \/ ~Reads(p) THEN Err
  ELSE [content |-> IF p.blocks = PayloadOf("a").blocks THEN "a" ELSE "other",
        settings |-> [f \in {"version", "comment", "compression", "rounds"} |-> Get(header, f)]]

\* The guarantee. To put another saved file in its place is not a change of
\* this one.
Detected == Open \in {Err, Saved} \/ (Open.content = "b" /\ Other)

-----------------------------------------------------------------------------
\* Changes.
Op(kind, i, j) == ops' = Append(ops, <<kind, i, j>>)
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Movable == 2..Len(header)  \* the version has its place

HeaderChange == UNCHANGED cipher /\
  (\/ \E i \in 1..Len(header) :
       \/ Op("flip field", i, 0) /\ header' = [header EXCEPT ![i] = <<@[1], Changed(@[2])>>]
       \/ i \in Movable /\ Op("drop field", i, 0) /\ header' = Drop(header, i)
       \/ i \in Movable /\ Op("repeat field", i, 0) /\ header' = Insert(header, i, header[i])
       \/ i \in Movable /\ Op("changed before", i, 0) /\ header' = Insert(header, i, <<header[i][1], Changed(header[i][2])>>)
       \/ i \in Movable /\ Op("changed after", i, 0) /\ header' = Insert(header, i + 1, <<header[i][1], Changed(header[i][2])>>)
       \/ i \in Movable /\ Op("rename field", i, 0) /\ header' = [header EXCEPT ![i] = <<"unknown", @[2]>>]
       \/ i \in Movable /\ Op("resize field", i, 0) /\ header' = [header EXCEPT ![i] = <<"unknown", @[2]>>]
       \/ \E k \in 1..Len(Fields) : header[i][1] = Fields[k] /\ header[i][2] # HeaderOf("b")[k][2]
            /\ Op("field of the other", i, k) /\ header' = [header EXCEPT ![i] = HeaderOf("b")[k]]
   \/ \E i, j \in Movable : i < j /\ Op("swap fields", i, j) /\ header' = Swap(header, i, j)
   \/ \E i \in 2..(Len(header) + 1) : Op("new comment", i, 0) /\ header' = Insert(header, i, <<"comment", <<"new">>>>)
   \/ Op("header of the other", 0, 0) /\ header' = HeaderOf("b"))

CipherChange == UNCHANGED header /\
  (\/ \E i \in 1..Len(cipher.c) :
       \/ Op("flip block", i, 0) /\ cipher' = [cipher EXCEPT !.c[i] = Changed(@)]
       \/ Op("drop block", i, 0) /\ cipher' = [cipher EXCEPT !.c = Drop(@, i)]
       \/ Op("repeat block", i, 0) /\ cipher' = [cipher EXCEPT !.c = Insert(@, i, @[i])]
       \/ Op("block of the other", i, 0) /\ cipher' = [cipher EXCEPT !.c[i] = B(i)]
       \/ Op("cut before block", i, 0) /\ cipher' = [cipher EXCEPT !.c = SubSeq(@, 1, i - 1)]
       \/ Op("cut inside block", i, 0) /\ cipher' = [cipher EXCEPT !.c = SubSeq(@, 1, i - 1), !.tail = "broken"]
   \/ \E i, j \in 1..Len(cipher.c) : i < j /\ Op("swap blocks", i, j) /\ cipher' = [cipher EXCEPT !.c = Swap(@, i, j)]
   \/ Op("append blocks", 0, 0) /\ cipher' = [cipher EXCEPT !.tail = "whole blocks"]
   \/ Op("append bytes", 0, 0) /\ cipher' = [cipher EXCEPT !.tail = "broken"]
   \/ \E i \in 1..(IF Len(cipher.c) < Blocks THEN Len(cipher.c) ELSE Blocks) : Op("rest of the other", i, 0) /\ cipher' = [cipher EXCEPT !.c = SubSeq(@, 1, i - 1) \o [k \in 1..(Blocks - i + 1) |-> B(i + k - 1)]])

\* The payload encrypted again, under the header as it is; something in it
\* does not fit.
Again(p, what, i, j) == UNCHANGED header /\ Op(what, i, j) /\ cipher' = Chain([p EXCEPT !.with = what], KeyOf(header), Get(header, "iv"))
\* Only when the key is known.
InsideChange == /\ Len(cipher.c) = Blocks /\ cipher.tail = "none" /\ cipher.p.with \in {"nothing", "the same"} /\ cipher.c = [i \in 1..Blocks |-> <<"c", i>>]
                /\ Known /\ (\A f \in Range(Fields) \ {"comment"} : Get(header, f) # <<>>)
  /\ LET p == cipher.p
         bs == p.blocks
     IN \/ \E i \in 1..Len(bs) :
             \/ Again([p EXCEPT !.blocks[i].data = Changed(@)], "data", i, 0)
             \/ Again([p EXCEPT !.blocks[i].hash = Changed(@)], "hash", i, 0)
             \/ \E k \in {0, 1, 2, 3, 4} : k # bs[i].n /\ Again([p EXCEPT !.blocks[i].n = k], "number", i, k)
             \/ i < Len(bs) /\ Again([p EXCEPT !.blocks = Drop(@, i)], "lose", i, 0)
             \/ i < Len(bs) /\ Again([p EXCEPT !.blocks = Insert(@, i, @[i])], "twice", i, 0)
             \/ Again([p EXCEPT !.blocks[i].data = Data("b", i)], "data of the other", i, 0)
             \/ \E j \in 1..Len(bs) : i < j /\ Again([p EXCEPT !.blocks = Swap(@, i, j)], "swap", i, j)
        \/ \E k \in {0, 1, 2, 4} : Again([p EXCEPT !.final.n = k], "final number", k, 0)
        \/ Again([p EXCEPT !.final.hash = <<"data">>], "final hash", 0, 0)
        \/ Again([p EXCEPT !.final = [n |-> 3, hash |-> <<>>]], "no final", 0, 0)
        \/ Again([p EXCEPT !.start = Changed(@)], "start", 0, 0)
        \/ \E k \in 0..3 : Again([p EXCEPT !.header = Changed(@)], "header hash", k, 0)  \* a character, cut short, empty, longer
        \/ Again([PayloadOf("b") EXCEPT !.start = p.start], "payload of the other", 0, 0)
        \* under a changed header, and unchanged itself
        \/ ops # <<>> /\ Again([p EXCEPT !.start = Get(header, "start bytes")], "the same", 0, 0)

\* Places in the file, and in the payload that is then encrypted again.
Positions == 0..MaxOps
\* A big file has blocks of more than a mebibyte.
NoPlace == [level |-> "", from |-> "", at |-> 0, size |-> "small"]
Init == at \in (IF Family = "bytes" THEN [level : {"file", "payload"}, from : {"start", "end"}, at : Positions, size : {"small"}]
               ELSE IF Family = "changes" THEN {NoPlace, [NoPlace EXCEPT !.size = "big"]} ELSE {NoPlace}) /\ header = HeaderOf("a") /\ cipher = Chain(PayloadOf("a"), KeyOf(HeaderOf("a")), Get(HeaderOf("a"), "iv")) /\ ops = <<>>
Next == Family = "changes" /\ Len(ops) < (IF at.size = "big" THEN 1 ELSE MaxOps) /\ (HeaderChange \/ CipherChange \/ InsideChange)
Walk == Family = "walk" /\ Len(ops) < MaxOps /\ (HeaderChange \/ CipherChange \/ InsideChange)
Spec == Init /\ [][(Next \/ Walk) /\ UNCHANGED at]_vars

Done == IF Family = "bytes" THEN TRUE ELSE IF Family = "walk" THEN Len(ops) = MaxOps ELSE ops # <<>>
Verdict == IF Open = Err THEN "error" ELSE IF Open.content = "b" THEN "other" ELSE "same"
Emit == Done => PrintT(ToJson([at |-> at, ops |-> ops, want |-> Verdict]))
=============================================================================
