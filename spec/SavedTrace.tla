----------------------------- MODULE SavedTrace -----------------------------
(***************************************************************************)
(* Reads files that the library saved, part by part, with the reader of    *)
(* KdbxDoc.tla, and compares what the reader has at the end with the       *)
(* content that was saved. A recorded file is                              *)
(*   [version, header, blocks, events, stream, hash, want]:                *)
(* the header fields in order, the sizes of the blocks, the elements of    *)
(* the document in order, the key stream, the hash of the header, and the  *)
(* content. An element without elements in it is a leaf, with what its     *)
(* text means in each lexical form that the text has, or with the bytes of *)
(* a protected value as they are in the file. Protected bytes are read     *)
(* here, at the position where the reader is in the key stream.            *)
(***************************************************************************)
EXTENDS KdbxDoc, IOUtils, Bitwise

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE at
SeqX == INSTANCE SequencesExt

-----------------------------------------------------------------------------
(* The container *)

HeaderSize == 2 :> 16 @@ 3 :> 4 @@ 4 :> 32 @@ 5 :> 32 @@ 6 :> 8 @@ 7 :> 16 @@ 8 :> 32 @@ 9 :> 32 @@ 10 :> 4
HeaderBad(r) ==
  LET h == r.header
      n == Len(h)
      OfId(id) == {i \in 1..n : h[i].id = id}
      Num(id) == h[CHOOSE i \in OfId(id) : TRUE].number
  IN {"version" : x \in {y \in {1} : r.version # r.want.version}}
     \cup {"header field " \o ToString(id) : id \in {id \in DOMAIN HeaderSize : Cardinality(OfId(id)) # 1}}
     \cup {"size of header field " \o ToString(h[i].id) : i \in {i \in 1..n : h[i].id \in DOMAIN HeaderSize /\ h[i].size # HeaderSize[h[i].id]}}
     \cup {"unknown header field" : i \in {i \in 1..n : h[i].id \notin DOMAIN HeaderSize \cup {0, 1}}}
     \cup {"end of the header" : x \in {y \in {1} : OfId(0) # {n}}}
     \cup {"comment" : x \in {y \in {1} : IF r.want.comment < 0 THEN OfId(1) # {} ELSE \/ Cardinality(OfId(1)) # 1
                                                                                   \/ \E i \in OfId(1) : h[i].size # r.want.comment}}
     \cup {"compression" : x \in {y \in {1} : Cardinality(OfId(3)) = 1 /\ Num(3) # (IF r.want.gzip THEN 1 ELSE 0)}}
     \cup {"stream cipher" : x \in {y \in {1} : Cardinality(OfId(10)) = 1 /\ Num(10) # 2}}
\* Blocks of any size, then one without data.
BlocksBad(r) ==
  {"blocks" : x \in {y \in {1} : \/ r.blocks = <<>> \/ r.blocks[Len(r.blocks)] # 0
                                 \/ \E i \in 1..(Len(r.blocks) - 1) : r.blocks[i] = 0}}

-----------------------------------------------------------------------------
(* The document *)

Repeat == [Group |-> {"Group", "Entry"}, Entry |-> {"String", "Binary"}, AutoType |-> {"Association"}, History |-> {"Entry"},
           Binaries |-> {"Binary"}, CustomData |-> {"Item"}, CustomIcons |-> {"Icon"}]
May(c) == CASE c = "File" -> {"KeePassFile"}
            [] c = "Meta" -> KnownIn(c) \cup {"HeaderHash"}
            [] c = "Unknown" -> {}
            [] OTHER -> KnownIn(c)
Many(c) == IF c \in DOMAIN Repeat THEN Repeat[c] ELSE {}
Must(c, inHistory) == (May(c) \ Many(c)) \ (IF inHistory THEN {"History"} ELSE {})

\* Which attributes an element can have.
AttrOk(ctx, name, a) ==
  \/ name = "Value" /\ ctx \in {"String", "Binary"} /\ a = <<"Protected", "True">>
  \/ name = "Value" /\ ctx = "Binary" /\ a[1] = "Ref"
  \/ name = "Binary" /\ ctx = "Binaries" /\ (a[1] = "ID" \/ a = <<"Compressed", "True">>)
Attr(e, k) == LET i == CHOOSE i \in 1..Len(e.attrs) : e.attrs[i][1] = k IN e.attrs[i][2]
Has(e, k) == \E i \in 1..Len(e.attrs) : e.attrs[i][1] = k

\* The bytes of a protected value.
Plain(bytes, stream, pos) == [i \in 1..Len(bytes) |-> bytes[i] ^^ stream[pos + i]]

\* The form that a value of the type has to have.
Form(type, e) == CASE type \in {"sval", "text"} -> "text"
                   [] type = "bval" -> "bytes"
                   [] type = "pool" -> IF Has(e, "Compressed") THEN "gz" ELSE "bytes"
                   [] type = "iconkey" -> "uuid"
                   [] OTHER -> type
\* The class of a leaf for the reader; "?" if its text has not the right form.
ClassOf(type, e, stream, pos) ==
  CASE type \in {"skey", "key"} -> e.key
    [] Has(e, "Protected") -> "prot" \o ToString(Plain(e.bytes, stream, pos))
    [] Has(e, "Ref") -> IF e.blank THEN "ref:" \o Attr(e, "Ref") ELSE "?"
    [] OTHER -> LET f == Form(type, e)
                IN IF f \notin DOMAIN e.vals THEN "?" ELSE IF e.vals[f] = "null" THEN "empty" ELSE e.vals[f]

T0 == [s |-> S0, pos |-> 0, seen |-> <<{}>>, bad |-> {}, n |-> 0]
Fail(t, why) == [t EXCEPT !.bad = IF t.bad = {} THEN {why} ELSE @]
\* Nothing of the way is kept.
Slim(x) == [x EXCEPT !.out = <<>>]
See(t, name) == [t EXCEPT !.seen[Len(t.seen)] = @ \cup {name}]

OpenIt(t, e) == [t EXCEPT !.s = Slim(Read(t.s, Open(e.name))), !.seen = Append(@, {})]
\* What the end of a container adds must be new.
Twofold(q) ==
  LET fr == Top(q)
      up == q.stack[Len(q.stack) - 1]
  IN /\ fr.key # None
     /\ \/ fr.ctx = "String" /\ fr.key[1] \in DOMAIN up.strings
        \/ fr.ctx = "Binary" /\ fr.key[1] \in DOMAIN up.bins
        \/ fr.ctx \in {"Item", "Icon"} /\ fr.key[1] \in DOMAIN up.map
CloseIt(t, e) ==
  IF Len(t.s.stack) < 2 THEN Fail(t, "an end without a beginning")
  ELSE LET c == Top(t.s).ctx
           miss == Must(c, InHistory(t.s)) \ t.seen[Len(t.seen)]
           t1 == IF miss # {} THEN Fail(t, "missing in " \o c \o ": " \o ToString(miss))
                 ELSE IF Twofold(t.s) THEN Fail(t, "the same key twice in " \o c) ELSE t
       IN [t1 EXCEPT !.s = Slim(Read(t.s, Close)), !.seen = SubSeq(@, 1, Len(@) - 1)]
LeafIt(t, e, r) ==
  LET ctx == Top(t.s).ctx
      type == LeafTypes[ctx][e.name]
      used == IF Has(e, "Protected") THEN Len(e.bytes) ELSE 0
      class == ClassOf(type, e, r.stream, t.pos)
      id == IF type = "pool" /\ Has(e, "ID") THEN Attr(e, "ID") ELSE ""
  IN IF ctx = "Meta" /\ e.name = "HeaderHash" THEN (IF e.key = r.hash THEN t ELSE Fail(t, "the header hash"))
     ELSE IF class = "?" THEN Fail(t, "the form of " \o e.name \o " in " \o ctx)
     ELSE IF type = "pool" /\ (~Has(e, "ID") \/ id \in DOMAIN Top(t.s).map) THEN Fail(t, "a binary of the pool without an identifier of its own")
     ELSE [t EXCEPT !.s = Slim(Read(t.s, IF type = "pool" THEN Pool(id, class) ELSE Leaf(e.name, class))), !.pos = @ + used]

Step(r, t, e) ==
  LET ctx == Top(t.s).ctx
      isLeaf == e.op = "leaf" /\ ~(ctx = "File" \/ (ctx # "Unknown" /\ e.name \in Containers[ctx]))
  IN IF t.bad # {} THEN t
     ELSE IF e.op = "close" THEN CloseIt(t, e)
     ELSE IF e.name \notin May(ctx) \ (IF InHistory(t.s) /\ ctx = "Entry" THEN {"History"} ELSE {}) THEN Fail(t, e.name \o " in " \o ctx)
     ELSE IF e.name \in t.seen[Len(t.seen)] /\ e.name \notin Many(ctx) THEN Fail(t, e.name \o " twice in " \o ctx)
     ELSE IF \E i \in 1..Len(e.attrs) : ~AttrOk(ctx, e.name, e.attrs[i]) THEN Fail(t, "an attribute of " \o e.name \o " in " \o ctx)
     ELSE IF isLeaf THEN LeafIt(See(t, e.name), e, r)
     ELSE IF e.op = "open" /\ e.name \notin (IF ctx = "File" THEN {"KeePassFile"} ELSE Containers[ctx]) THEN Fail(t, "elements in " \o e.name)
     ELSE IF e.op = "leaf" /\ ~e.blank THEN Fail(t, "text in " \o e.name)
     ELSE IF e.op = "leaf" THEN CloseIt(OpenIt(See(t, e.name), e), e)
     ELSE OpenIt(See(t, e.name), e)

-----------------------------------------------------------------------------
(* The content *)

SameF(f, want, skip) ==
  /\ DOMAIN f \ skip = DOMAIN want
  /\ \A k \in DOMAIN want : f[k].c = want[k]
SameMap(m, want) ==
  /\ Cardinality(DOMAIN m) = Len(want)
  /\ \A i \in 1..Len(want) : want[i][1] \in DOMAIN m /\ m[want[i][1]].c = want[i][2]
SameAssoc(a, want) ==
  /\ Len(a) = Len(want)
  /\ \A i \in 1..Len(want) : a[i]["Window"].c = want[i][1] /\ a[i]["KeystrokeSequence"].c = want[i][2]
RECURSIVE SameEntry(_, _)
SameEntry(e, want) ==
  /\ SameF(e.f, want.f, {}) /\ SameAssoc(e.assoc, want.assoc)
  /\ SameMap(e.strings, want.strings) /\ SameMap(e.bins, want.bins)
  /\ Len(e.hist) = Len(want.hist) /\ \A i \in 1..Len(want.hist) : SameEntry(e.hist[i], want.hist[i])
RECURSIVE SameGroup(_, _)
SameGroup(g, want) ==
  /\ SameF(g.f, want.f, {})
  /\ Len(g.entries) = Len(want.entries) /\ \A i \in 1..Len(want.entries) : SameEntry(g.entries[i], want.entries[i])
  /\ Len(g.groups) = Len(want.groups) /\ \A i \in 1..Len(want.groups) : SameGroup(g.groups[i], want.groups[i])
MapOf(m, name) == IF name \in DOMAIN m.maps THEN m.maps[name] ELSE None

DocumentBad(r) ==
  LET t == SeqX!FoldLeft(LAMBDA a, e : Step(r, [a EXCEPT !.n = @ + (IF a.bad = {} THEN 1 ELSE 0)], e), T0, r.events)
      m == t.s.stack[1]
  IN IF t.bad # {} THEN {x \o ", element " \o ToString(t.n) : x \in t.bad}
     ELSE IF Len(t.s.stack) # 1 \/ t.seen[1] # {"KeePassFile"} THEN {"the document is not complete"}
     ELSE IF t.s.err \/ t.s.loose THEN {"a value that cannot be read"}
     ELSE IF Len(m.groups) # 1 THEN {"the root group"}
     ELSE IF t.pos # Len(r.stream) THEN {"the use of the key stream"}
     ELSE {"the settings" : x \in {y \in {1} : ~SameF(m.f, r.want.f, {"Generator"})}}
          \cup {name : name \in {name \in DOMAIN r.want.maps : ~SameMap(MapOf(m, name), r.want.maps[name])}}
          \cup {"groups and entries" : x \in {y \in {1} : ~SameGroup(m.groups[1], r.want.root)}}

-----------------------------------------------------------------------------
tvars == <<at, s, focus, kids, phase>>
TInit == at = 1 /\ s = S0 /\ focus = "KeePassFile" /\ kids = <<>> /\ phase = "kids"
File(r) ==
  LET bad == HeaderBad(r) \cup BlocksBad(r) \cup DocumentBad(r)
  IN IF bad = {} THEN TRUE ELSE PrintT(ToJson([rejected |-> at, case |-> r.case, why |-> bad]))
TNext == at <= Len(Trace) /\ File(Trace[at]) /\ at' = at + 1 /\ UNCHANGED <<s, focus, kids, phase>>
TSpec == TInit /\ [][TNext]_tvars
Report == at > Len(Trace) => PrintT(ToJson([accepted |-> Len(Trace)]))
=============================================================================
