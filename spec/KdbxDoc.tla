------------------------------ MODULE KdbxDoc ------------------------------
(***************************************************************************)
(* The XML document inside a KDBX 3.1 file, event by event, and a reader   *)
(* for it: a pushdown automaton with the position in the key stream. Each  *)
(* step writes the events of one child element and lets the reader consume *)
(* them. The model that the reader has built when the document is complete *)
(* is what opening a file with that document has to give.                  *)
(*                                                                         *)
(* An event is open(name), leaf(name, class) or close. A leaf's value is   *)
(* named by its class and the number of its event, so all values differ.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus,     \* contexts whose children are enumerated
          MaxKids,   \* number of children there
          Kinds,     \* "all", "protected" or "parents": which children
          Random,    \* TRUE: simulation of whole documents
          MaxSteps   \* children written in a simulated document

-----------------------------------------------------------------------------
(* The grammar: type of each leaf and context of each container, by context *)

Dates == {"CreationTime", "ExpiryTime", "LastAccessTime", "LastModificationTime", "LocationChanged"}

LeafTypes == [
  KeePassFile |-> <<>>,
  Root |-> <<>>,
  Meta |->
    [n \in {"DatabaseDescription", "DatabaseName", "DefaultUserName", "Generator"} |-> "text"] @@
    [n \in {"DatabaseDescriptionChanged", "DatabaseNameChanged", "DefaultUserNameChanged",
            "EntryTemplatesGroupChanged", "MasterKeyChanged", "RecycleBinChanged"} |-> "date"] @@
    [n \in {"EntryTemplatesGroup", "LastSelectedGroup", "LastTopVisibleGroup", "RecycleBinUUID"} |-> "uuid"] @@
    [n \in {"HistoryMaxItems", "HistoryMaxSize", "MaintenanceHistoryDays", "MasterKeyChangeForce",
            "MasterKeyChangeRec"} |-> "int"] @@
    ("Color" :> "color") @@ ("RecycleBinEnabled" :> "bool"),
  MemoryProtection |->
    [n \in {"ProtectNotes", "ProtectPassword", "ProtectTitle", "ProtectURL", "ProtectUserName"} |-> "bool"],
  Binaries |-> ("Binary" :> "pool"),
  CustomData |-> <<>>,
  Item |-> ("Key" :> "key") @@ ("Value" :> "text"),
  CustomIcons |-> <<>>,
  Icon |-> ("UUID" :> "iconkey") @@ ("Data" :> "bytes"),
  Group |->
    ("CustomIconUUID" :> "optuuid") @@ ("DefaultAutoTypeSequence" :> "text") @@ ("EnableAutoType" :> "optbool") @@
    ("EnableSearching" :> "optbool") @@ ("IconID" :> "icon") @@ ("IsExpanded" :> "bool") @@
    ("LastTopVisibleEntry" :> "uuid") @@ ("Name" :> "text") @@ ("Notes" :> "text") @@ ("UUID" :> "uuid"),
  Times |-> [n \in Dates |-> "date"] @@ ("Expires" :> "bool") @@ ("UsageCount" :> "int"),
  Entry |->
    ("BackgroundColor" :> "color") @@ ("CustomIconUUID" :> "optuuid") @@ ("ForegroundColor" :> "color") @@
    ("IconID" :> "icon") @@ ("OverrideURL" :> "text") @@ ("Tags" :> "text") @@ ("UUID" :> "uuid"),
  AutoType |-> ("DataTransferObfuscation" :> "obf") @@ ("DefaultSequence" :> "text") @@ ("Enabled" :> "bool"),
  Association |-> ("KeystrokeSequence" :> "text") @@ ("Window" :> "text"),
  String |-> ("Key" :> "skey") @@ ("Value" :> "sval"),
  Binary |-> ("Key" :> "key") @@ ("Value" :> "bval"),
  History |-> <<>>,
  Unknown |-> <<>> ]

Containers == [
  KeePassFile |-> {"Meta", "Root"},
  Root |-> {"Group"},
  Meta |-> {"Binaries", "CustomData", "CustomIcons", "MemoryProtection"},
  MemoryProtection |-> {}, Binaries |-> {}, CustomData |-> {"Item"}, Item |-> {},
  CustomIcons |-> {"Icon"}, Icon |-> {},
  Group |-> {"Group", "Entry", "Times"},
  Times |-> {},
  Entry |-> {"AutoType", "Binary", "History", "String", "Times"},
  AutoType |-> {"Association"}, Association |-> {}, String |-> {}, Binary |-> {},
  History |-> {"Entry"},
  Unknown |-> {} ]

Contexts == DOMAIN Containers \ {"Unknown"}
AllNames == UNION {DOMAIN LeafTypes[c] \cup Containers[c] : c \in Contexts} \cup {"KeePassFile"}
KnownIn(ctx) == DOMAIN LeafTypes[ctx] \cup Containers[ctx]

(* The classes of values of a type *)
Lens == {0, 1, 16, 63, 64, 65, 200}
P(n) == "p" \o ToString(n)
Prots == {P(n) : n \in Lens}
LenOf(class) == IF \E n \in Lens : P(n) = class THEN CHOOSE n \in Lens : P(n) = class
                ELSE IF class = "pgz" THEN 40 ELSE IF class = "pimp" THEN 33 ELSE 0
IsProt(class) == class \in Prots \cup {"pgz", "pimp"}

Keys == {"Title", "UserName", "Password", "URL", "Notes", "title", "PASSWORD", "custom", "Custom", "", " "}
StdKey(k) == CASE k = "title" -> "Title" [] k = "PASSWORD" -> "Password" [] OTHER -> k

Good(type) ==
  CASE type = "text"    -> {"phrase", "markup", "space", "null", "empty"}
    [] type = "key"     -> {"k1", "k2", "K1", "", " "}
    [] type = "iconkey" -> {"u1", "u2"}
    [] type = "skey"    -> Keys
    [] type = "date"    -> {"day", "frac"}
    [] type = "uuid"    -> {"any", "nil"}
    [] type = "optuuid" -> {"any", "nil", "empty", "blank"}
    [] type = "int"     -> {"any", "zero", "min", "max"}
    [] type = "bool"    -> {"true", "false"}
    [] type = "optbool" -> {"true", "false", "null", "empty", "blank"}
    [] type = "color"   -> {"any", "empty", "blank"}
    [] type = "icon"    -> {"any", "first", "last"}
    [] type = "obf"     -> {"none", "clip"}
    [] type = "bytes"   -> {"any", "empty"}
    [] type = "sval"    -> {"phrase", "space", "empty", "pim", "pimempty", "pimp", "pfalse", "pempty"} \cup Prots
    [] type = "bval"    -> {"any", "empty", "ref", "gz", "pgz", "pfalse", "pempty"} \cup Prots
    [] type = "pool"    -> {"any", "empty", "gz", "pgz", "pfalse", "pempty"} \cup Prots
Bad(type) ==
  CASE type = "date"    -> {"garbage", "range", "empty", "blank"}
    [] type = "uuid"    -> {"short", "long", "bad64", "empty", "blank"}
    [] type = "optuuid" -> {"short", "long", "bad64"}
    [] type = "iconkey" -> {"short", "long", "bad64"}
    [] type = "int"     -> {"overflow", "underflow", "garbage", "float", "empty", "blank"}
    [] type = "bool"    -> {"garbage", "digit", "null", "empty", "blank"}
    [] type = "optbool" -> {"garbage", "digit"}
    [] type = "color"   -> {"short", "long", "nohash", "nonhex", "nonascii"}
    [] type = "icon"    -> {"over", "minus", "garbage", "empty", "blank"}
    [] type = "obf"     -> {"over", "minus", "garbage", "empty", "blank"}
    [] type = "bytes"   -> {"bad64"}
    [] type = "sval"    -> {"pbad64", "pbadutf8"}
    [] type = "bval"    -> {"bad64", "pbad64", "badgz"}
    [] type = "pool"    -> {"bad64", "pbad64", "badgz", "noid"}
    [] OTHER -> {}
\* The class that means "nothing": the default of an optional type.
Nothing(type) == CASE type \in {"optuuid", "color"} -> {"empty", "blank"}
                   [] type = "optbool" -> {"empty", "blank", "null"}
                   [] OTHER -> {}

-----------------------------------------------------------------------------
(* The reader *)

None == <<>>
\* What a container has collected so far.
Frame(ctx, at) ==
  [ctx |-> ctx, at |-> at, f |-> None, assoc |-> <<>>, hist |-> <<>>, entries |-> <<>>, groups |-> <<>>,
   strings |-> None, bins |-> None, map |-> None, maps |-> None, key |-> None, val |-> None]
S0 == [stack |-> <<Frame("File", 0)>>, pos |-> 0, n |-> 0, err |-> FALSE, loose |-> FALSE, out |-> <<>>]

Open(name) == [op |-> "open", name |-> name, class |-> ""]
Leaf(name, class) == [op |-> "leaf", name |-> name, class |-> class]
Pool(id, class) == [op |-> "leaf", name |-> "Binary", class |-> class, id |-> id]
Close == [op |-> "close", name |-> "", class |-> ""]

Top(s) == s.stack[Len(s.stack)]
SetTop(s, fr) == [s EXCEPT !.stack[Len(s.stack)] = fr]

ChildCtx(ctx, name) ==
  IF ctx = "File" THEN name
  ELSE IF ctx # "Unknown" /\ name \in Containers[ctx] THEN name ELSE "Unknown"

Val(s, type, class) == [t |-> type, c |-> class, n |-> s.n, at |-> IF IsProt(class) THEN s.pos ELSE -1]

\* A leaf of a known type goes to its place in the frame.
Put(s, type, e) ==
  LET top == Top(s)
      v == Val(s, type, e.class)
  IN IF e.class \in Bad(type) THEN [s EXCEPT !.err = TRUE]
     ELSE CASE type = "skey" -> SetTop(s, [top EXCEPT !.key = <<StdKey(e.class)>>])
            [] type \in {"key", "iconkey"} -> SetTop(s, [top EXCEPT !.key = <<e.class>>])
            [] type \in {"sval", "bval"} \/ (top.ctx \in {"Item", "Icon"}) -> SetTop(s, [top EXCEPT !.val = <<v>>])
            [] type = "pool" -> SetTop(s, [top EXCEPT !.map = (e.id :> v) @@ top.map])
            [] e.class \in Nothing(type) -> SetTop(s, [top EXCEPT !.f = (e.name :> [v EXCEPT !.c = "nothing"]) @@ top.f])
            [] OTHER -> SetTop(s, [top EXCEPT !.f = (e.name :> v) @@ top.f])

Uuid(fr) == IF "UUID" \in DOMAIN fr.f THEN <<fr.f["UUID"]>> ELSE <<>>
Entry(fr) == [f |-> fr.f, assoc |-> fr.assoc, hist |-> fr.hist, strings |-> fr.strings, bins |-> fr.bins, parent |-> <<>>]
WithParent(xs, u) == [i \in 1..Len(xs) |-> [xs[i] EXCEPT !.parent = u]]
\* The identifier of a group may come after its children.
Group(fr) == [f |-> fr.f, entries |-> WithParent(fr.entries, Uuid(fr)), groups |-> WithParent(fr.groups, Uuid(fr)), parent |-> <<>>]

\* The end of a container gives what it collected to the container around it.
Fold(s) ==
  LET fr == Top(s)
      u == [s EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1)]
      up == Top(u)
      both == fr.key # None /\ fr.val # None
  IN CASE fr.ctx \in {"Times", "AutoType", "MemoryProtection"} ->
            SetTop(u, [up EXCEPT !.f = fr.f @@ up.f, !.assoc = @ \o fr.assoc])
       [] fr.ctx = "Association" ->
            IF {"Window", "KeystrokeSequence"} \subseteq DOMAIN fr.f
            THEN SetTop(u, [up EXCEPT !.assoc = Append(@, fr.f)])
            ELSE [u EXCEPT !.loose = TRUE]
       [] fr.ctx = "String" -> IF both THEN SetTop(u, [up EXCEPT !.strings = (fr.key[1] :> fr.val[1]) @@ @])
                               ELSE [u EXCEPT !.loose = TRUE]
       [] fr.ctx = "Binary" -> IF both THEN SetTop(u, [up EXCEPT !.bins = (fr.key[1] :> fr.val[1]) @@ @])
                               ELSE [u EXCEPT !.loose = TRUE]
       [] fr.ctx \in {"Item", "Icon"} ->
                               IF both THEN SetTop(u, [up EXCEPT !.map = (fr.key[1] :> fr.val[1]) @@ @])
                               ELSE [u EXCEPT !.loose = TRUE]
       [] fr.ctx \in {"Binaries", "CustomData", "CustomIcons"} ->
            SetTop(u, [up EXCEPT !.maps = (fr.ctx :> fr.map) @@ @])
       [] fr.ctx = "Entry" /\ up.ctx = "Group" -> SetTop(u, [up EXCEPT !.entries = Append(@, Entry(fr))])
       [] fr.ctx = "Entry" /\ up.ctx = "History" -> SetTop(u, [up EXCEPT !.hist = Append(@, Entry(fr))])
       [] fr.ctx = "History" -> SetTop(u, [up EXCEPT !.hist = @ \o fr.hist])
       [] fr.ctx = "Group" /\ up.ctx = "Group" -> SetTop(u, [up EXCEPT !.groups = Append(@, Group(fr))])
       [] fr.ctx = "Group" -> SetTop(u, [up EXCEPT !.groups = <<Group(fr)>>])
       [] fr.ctx = "Root" -> SetTop(u, [up EXCEPT !.groups = fr.groups])
       [] fr.ctx = "Meta" -> SetTop(u, [up EXCEPT !.f = fr.f, !.maps = fr.maps])
       [] fr.ctx = "KeePassFile" -> SetTop(u, [up EXCEPT !.f = fr.f, !.maps = fr.maps, !.groups = fr.groups])
       [] OTHER -> u

\* In a history entry the history means nothing.
InHistory(s) == \E i \in 1..Len(s.stack) : s.stack[i].ctx = "History"

Read(s, e) ==
  LET ctx == Top(s).ctx
      s1 == [s EXCEPT !.n = s.n + 1]
      after == CASE e.op = "open" ->
                      LET c == ChildCtx(ctx, e.name)
                      IN [s1 EXCEPT !.stack = Append(@, Frame(IF c = "History" /\ InHistory(s) THEN "Unknown" ELSE c, s.n))]
                 [] e.op = "close" -> Fold(s1)
                 [] OTHER ->
                      LET t == IF ctx = "Unknown" \/ e.name \notin DOMAIN LeafTypes[ctx] THEN "" ELSE LeafTypes[ctx][e.name]
                          s2 == IF t = "" THEN s1 ELSE [Put([s1 EXCEPT !.n = s.n], t, e) EXCEPT !.n = s.n + 1]
                      \* a protected value uses the key stream wherever it is
                      IN [s2 EXCEPT !.pos = s.pos + (IF IsProt(e.class) THEN LenOf(e.class) ELSE 0)]
      rec == [op |-> e.op, name |-> e.name, class |-> e.class, at |-> s.pos,
              id |-> IF "id" \in DOMAIN e THEN e.id ELSE "",
              t |-> IF e.op = "open" THEN ChildCtx(ctx, e.name) ELSE IF e.op = "leaf" /\ ctx # "Unknown" /\ e.name \in DOMAIN LeafTypes[ctx] THEN LeafTypes[ctx][e.name] ELSE ""]
  IN [(IF s.err THEN [after EXCEPT !.stack = (IF e.op = "close" THEN Fold(s1) ELSE after).stack, !.err = TRUE] ELSE after)
       EXCEPT !.out = Append(s.out, rec)]

RECURSIVE ReadAll(_, _)
ReadAll(s, es) == IF es = <<>> THEN s ELSE ReadAll(Read(s, Head(es)), Tail(es))

-----------------------------------------------------------------------------
(* Children as sequences of events *)

Str(k, v) == <<Open("String"), Leaf("Key", k), Leaf("Value", v), Close>>
RStr(k, v) == <<Open("String"), Leaf("Value", v), Leaf("Key", k), Close>>
Bin(k, v) == <<Open("Binary"), Leaf("Key", k), Leaf("Value", v), Close>>
Assoc == <<Open("Association"), Leaf("Window", "phrase"), Leaf("KeystrokeSequence", "phrase"), Close>>
Tms == <<Open("Times"), Leaf("ExpiryTime", "day"), Leaf("CreationTime", "frac"), Leaf("LastAccessTime", "day"),
         Leaf("LastModificationTime", "day"), Leaf("Expires", "true"), Leaf("UsageCount", "any"), Leaf("LocationChanged", "day"), Close>>
Auto == <<Open("AutoType"), Leaf("Enabled", "false")>> \o Assoc \o <<Leaf("DataTransferObfuscation", "clip")>> \o Assoc
        \o <<Leaf("DefaultSequence", "phrase"), Close>>
SmallEntry == <<Open("Entry"), Leaf("UUID", "any")>> \o Str("Title", "p16") \o Str("UserName", "phrase") \o <<Close>>
HistEntry == <<Open("Entry")>> \o Str("Password", "p65") \o <<Leaf("UUID", "any"), Leaf("Tags", "phrase")>> \o Bin("k1", "p16")
             \o <<Open("History"), Open("Entry")>> \o Str("Title", "p1") \o <<Close, Close, Close>>
Hist == <<Open("History")>> \o HistEntry \o HistEntry \o <<Close>>
SmallGroup == <<Open("Group"), Leaf("Name", "phrase")>> \o SmallEntry \o <<Leaf("UUID", "any"), Close>>
LateGroup == <<Open("Group")>> \o SmallEntry \o <<Open("Group")>> \o SmallEntry \o <<Leaf("UUID", "any"), Close>> \o <<Leaf("UUID", "any"), Close>>
NoIdGroup == <<Open("Group")>> \o SmallEntry \o <<Close>>
Canned(name) ==
  CASE name = "String"  -> {Str("Title", "phrase"), Str("custom", "p16"), RStr("Title", "p64"), Str("custom", "empty")}
    [] name = "Binary"  -> {Bin("k1", "any"), Bin("k2", "p63"), Bin("k1", "ref"), Bin("k2", "gz")}
    [] name = "Association" -> {Assoc}
    [] name = "Times"   -> {Tms}
    [] name = "AutoType" -> {Auto}
    [] name = "History" -> {Hist, <<Open("History"), Close>>}
    [] name = "Entry"   -> {SmallEntry, HistEntry}
    [] name = "Group"   -> {SmallGroup, LateGroup, NoIdGroup}
    [] name = "Item"    -> {<<Open("Item"), Leaf("Key", "k1"), Leaf("Value", "phrase"), Close>>,
                            <<Open("Item"), Leaf("Value", "empty"), Leaf("Key", "k2"), Close>>}
    [] name = "Icon"    -> {<<Open("Icon"), Leaf("UUID", "u1"), Leaf("Data", "any"), Close>>,
                            <<Open("Icon"), Leaf("Data", "any"), Leaf("UUID", "u2"), Close>>}
    [] name = "Binaries" -> {<<Open("Binaries"), Pool("0", "gz"), Pool("1", "p65"), Pool("0", "any"), Close>>}
    [] name = "CustomData" -> {<<Open("CustomData"), Open("Item"), Leaf("Key", "k1"), Leaf("Value", "phrase"), Close, Close>>}
    [] name = "CustomIcons" -> {<<Open("CustomIcons"), Open("Icon"), Leaf("UUID", "u1"), Leaf("Data", "any"), Close, Close>>}
    [] name = "MemoryProtection" -> {<<Open("MemoryProtection"), Leaf("ProtectTitle", "true"), Leaf("ProtectPassword", "false"),
                            Leaf("ProtectNotes", "true"), Leaf("ProtectURL", "true"), Leaf("ProtectUserName", "true"), Close>>}
    [] name = "Meta"    -> {<<Open("Meta"), Leaf("DatabaseName", "phrase"), Open("Binaries"), Pool("0", "p65"), Close, Close>>}
    [] name = "Root"    -> {<<Open("Root")>> \o SmallGroup \o <<Close>>}
    [] OTHER -> {}
\* Where one such element is all that a document has.
Single == {"Meta", "Root", "Binaries", "CustomData", "CustomIcons", "MemoryProtection", "History", "AutoType"}

Unk == {<<Leaf("Unknown", "empty")>>,
        <<Leaf("Unknown", "phrase")>>,
        <<Leaf("Unknown", "p65")>>,
        <<Leaf("Unknown", "pempty")>>,
        <<Open("Unknown"), Leaf("Value", "p16"), Close>>,
        <<Open("Unknown"), Open("Unknown"), Leaf("Value", "p1"), Leaf("Unknown", "phrase"), Close, Leaf("Unknown", "p64"), Close>>}
UnkDeep == {<<Open("Unknown")>> \o SmallGroup \o Str("Title", "p16") \o <<Leaf("UUID", "any"), Close>>,
            <<Open("Unknown"), Open("Unknown")>> \o Hist \o <<Close, Leaf("Value", "p63")>> \o Tms \o <<Close>>,
            <<Open("Unknown"), Open("Unknown"), Open("Unknown"), Close, Close, Close>>}
\* Known names where they do not belong. KeePassFile below itself and the name of
\* an enclosing container are included.
Misplaced(ctx) ==
  UNION {{<<Leaf(n, "phrase")>>, <<Leaf(n, "p16")>>, <<Open(n), Leaf("Value", "p63"), Leaf("UUID", "any"), Close>>,
          <<Open(n), Open(ctx), Leaf("Name", "phrase"), Close, Leaf("Key", "Title"), Leaf("Value", "p1"), Close>>}
         : n \in (AllNames \cup {"uuid", "KEY", "Entries"}) \ KnownIn(ctx)}

LeafKids(ctx) ==
  UNION {IF LeafTypes[ctx][n] = "pool"
         THEN {<<Pool(id, c)>> : id \in {"0", "1", "x"}, c \in Good("pool") \cup Bad("pool")}
         ELSE {<<Leaf(n, c)>> : c \in Good(LeafTypes[ctx][n]) \cup Bad(LeafTypes[ctx][n])}
         : n \in DOMAIN LeafTypes[ctx]}
BoxKids(ctx) == UNION {Canned(n) : n \in Containers[ctx]}

ProtKid(es) == \E i \in 1..Len(es) : es[i].op = "leaf" /\ IsProt(es[i].class)
ParentKid(ctx, es) == ctx = "Group" /\ Head(es).name \in {"UUID", "Group", "Entry", "Unknown"}
Wanted(ctx, es) == CASE Kinds = "all" -> TRUE
                     [] Kinds = "protected" -> ProtKid(es) \/ Head(es).class \in {"empty", "pempty", "pfalse", "pim", "ref"}
                     [] Kinds = "parents" -> ParentKid(ctx, es)
\* All children; and fewer, for the second and later ones.
Kids1(ctx) == {es \in LeafKids(ctx) \cup BoxKids(ctx) \cup Unk \cup UnkDeep
                      \cup (IF MaxKids <= 2 THEN Misplaced(ctx) ELSE {}) : Wanted(ctx, es)}
Repr(type) == CASE type = "skey" -> {"Title", "title", "custom", ""}
                [] type = "sval" -> {"phrase", "empty", "pempty", "p16", "p65", "pim"}
                [] type = "bval" -> {"any", "empty", "pempty", "p16", "p65", "ref"}
                [] type = "pool" -> {"any", "p16", "p65", "gz", "pempty"}
                [] type = "key"  -> {"k1", "k2", ""}
                [] type = "iconkey" -> {"u1", "u2"}
                [] type = "optbool" -> {"true", "null"}
                [] type \in {"color", "optuuid"} -> {"any", "empty"}
                [] type \in {"date", "bool", "icon", "obf"} -> {CHOOSE c \in Good(type) : TRUE}
                [] OTHER -> {"any", "phrase"} \cap Good(type)
Kids2(ctx) == {es \in Kids1(ctx) :
                 \/ Head(es).op = "leaf" /\ Head(es).name \in DOMAIN LeafTypes[ctx] /\ Head(es).class \in Repr(LeafTypes[ctx][Head(es).name])
                 \/ es \in BoxKids(ctx) \cup Unk}

LeafKidsOf == [c \in Contexts |-> LeafKids(c)]
GoodLeafOf == [c \in Contexts |-> {es \in LeafKids(c) : Head(es).class \in Good(LeafTypes[c][Head(es).name])}]
MisplacedOf == [c \in Contexts |-> Misplaced(c)]
Kids1Of == [c \in Focus |-> Kids1(c)]
Kids2Of == [c \in Focus |-> Kids2(c)]

\* The way to a context, and what follows it.
G0 == <<Open("KeePassFile"), Open("Root"), Open("Group"), Leaf("UUID", "any")>>
E0 == G0 \o <<Open("Entry"), Leaf("UUID", "any")>>
M0 == <<Open("KeePassFile"), Open("Meta")>>
Way == [KeePassFile |-> <<Open("KeePassFile")>>,
        Root |-> <<Open("KeePassFile"), Open("Root")>>,
        Meta |-> M0,
        MemoryProtection |-> M0 \o <<Open("MemoryProtection")>>,
        Binaries |-> M0 \o <<Open("Binaries")>>,
        CustomData |-> M0 \o <<Open("CustomData")>>,
        Item |-> M0 \o <<Open("CustomData"), Open("Item")>>,
        CustomIcons |-> M0 \o <<Open("CustomIcons")>>,
        Icon |-> M0 \o <<Open("CustomIcons"), Open("Icon")>>,
        Group |-> <<Open("KeePassFile"), Open("Root"), Open("Group"), Open("Group")>>,
        Times |-> E0 \o <<Open("Times")>>,
        Entry |-> G0 \o <<Open("Entry")>>,
        AutoType |-> E0 \o <<Open("AutoType")>>,
        Association |-> E0 \o <<Open("AutoType"), Open("Association")>>,
        String |-> E0 \o <<Open("String")>>,
        Binary |-> E0 \o <<Open("Binary")>>,
        History |-> E0 \o <<Open("History")>>]
Closes(n) == [i \in 1..n |-> Close]

\* After the focus a protected string shows where the key stream is.
Rest(s, focus) ==
  LET depth == Len(s.stack) - 1
      inMeta == Len(s.stack) >= 3 /\ s.stack[3].ctx = "Meta"
      inRoot == Len(s.stack) >= 4 /\ s.stack[3].ctx = "Root"
      tail == <<Open("Entry")>> \o Str("custom", "p16") \o Str("Notes", "p65") \o <<Close>>
      root == <<Open("Root"), Open("Group"), Leaf("UUID", "any")>> \o tail \o <<Close, Close, Close>>
  IN IF inMeta THEN Closes(depth - 1) \o root
     ELSE IF inRoot THEN Closes(depth - 3) \o tail \o <<Close, Close, Close>>
     ELSE IF focus = "Root" THEN <<Open("Group")>> \o tail \o <<Close, Close, Close>>
     ELSE IF \E i \in 1..Len(s.out) : s.out[i].op = "open" /\ s.out[i].t = "Root" /\ Top(s).groups # <<>>
          THEN <<Close>>
          ELSE root

-----------------------------------------------------------------------------
VARIABLES s, focus, kids, phase
vars == <<s, focus, kids, phase>>

Init == /\ focus \in (IF Random THEN {"KeePassFile"} ELSE Focus)
        /\ s = ReadAll(S0, IF Random THEN Way["KeePassFile"] ELSE Way[focus])
        /\ kids = <<>> /\ phase = "kids"

\* A second element of a kind that occurs once is not a KeePass document.
Twice(es) == Head(es).op = "open" /\ Head(es).name \in Single \ (IF InHistory(s) THEN {"History"} ELSE {})
             /\ \E k \in 1..Len(kids) : Head(kids[k]).op = "open" /\ Head(kids[k]).name = Head(es).name

SameLeaf(a, b) == Head(a).op = "leaf" /\ Head(b).op = "leaf" /\ Head(a).name = Head(b).name

Kid == /\ phase = "kids" /\ ~Random /\ Len(kids) < MaxKids /\ ~s.err
       /\ \E es \in (IF kids = <<>> THEN Kids1Of[focus] ELSE
                     IF kids[Len(kids)] \in Kids2Of[focus] /\ MaxKids > 1
                     THEN Kids2Of[focus] \cup {x \in LeafKidsOf[focus] : SameLeaf(x, kids[Len(kids)]) /\ Wanted(focus, x)}
                     ELSE {x \in LeafKidsOf[focus] : SameLeaf(x, kids[Len(kids)]) /\ Wanted(focus, x)}) :
            /\ ~Twice(es)
            /\ (focus = "Root" => Head(es).name # "Group")
            /\ s' = ReadAll(s, es)
            /\ kids' = Append(kids, es)
       /\ UNCHANGED <<focus, phase>>

Finish == /\ phase = "kids" /\ ~Random
          /\ s' = ReadAll(s, Rest(s, focus))
          /\ phase' = "done" /\ UNCHANGED <<focus, kids>>

\* Simulation: any child of the current container, or its end.
Enterable == {"Meta", "Root", "Group", "Entry", "History", "Times", "AutoType", "Binaries", "CustomData", "CustomIcons",
              "MemoryProtection"}
Had(name) == \E i \in 1..Len(s.out) : s.out[i].op = "open" /\ s.out[i].t = name
Once(name) == \* the single containers a frame had are remembered by their events
  LET at == Top(s).at
  IN name \in Single /\ (IF name \in {"History", "AutoType"} THEN \E i \in (at + 1)..Len(s.out) : s.out[i].op = "open" /\ s.out[i].t = name
                         ELSE Had(name))
RandomStr == LET k == RandomElement(Keys) v == RandomElement(Good("sval"))
             IN IF RandomElement(BOOLEAN) THEN Str(k, v) ELSE RStr(k, v)
RandomKid(ctx, r) ==
  LET leafs == GoodLeafOf[ctx]
      enter == {n \in Containers[ctx] \cap Enterable : ~Once(n) /\ ~(n = "History" /\ InHistory(s)) /\ (n = "Group" => Len(s.stack) < 12)}
      boxes == UNION {Canned(n) : n \in {m \in Containers[ctx] : ~Once(m)}}
  IN CASE r <= 4 /\ leafs # {} -> RandomElement(leafs)
       [] r \in {5, 6, 7} /\ enter # {} -> <<Open(RandomElement(enter))>>
       [] r \in {8, 9} /\ ctx = "Entry" -> RandomStr
       [] r = 10 /\ ctx = "Entry" -> Bin(RandomElement(Good("key")), RandomElement(Good("bval")))
       [] r \in {8, 9, 10} /\ boxes # {} -> RandomElement(boxes)
       [] r = 11 -> RandomElement(Unk \cup UnkDeep)
       [] r = 12 -> RandomElement(MisplacedOf[ctx])
       [] OTHER -> IF leafs # {} THEN RandomElement(leafs) ELSE IF enter # {} THEN <<Open(RandomElement(enter))>> ELSE RandomElement(Unk)
Walk == /\ phase = "kids" /\ Random /\ Len(kids) < MaxSteps
        /\ \E r \in {RandomElement(1..16)} :
             LET ctx == Top(s).ctx
             IN \/ /\ r > 12 /\ (r > 14 \/ ctx # "Group") /\ Len(s.stack) > 3 /\ ctx # "Root"
                   /\ s' = Read(s, Close)
                \/ /\ ~(r > 12 /\ (r > 14 \/ ctx # "Group") /\ Len(s.stack) > 3 /\ ctx # "Root")
                   /\ ~(ctx = "Root" /\ Top(s).groups # <<>>)
                   /\ \E es \in {RandomKid(ctx, r)} : s' = ReadAll(s, es)
                \/ /\ ctx = "Root" /\ Top(s).groups # <<>> /\ s' = Read(s, Close)
        /\ kids' = Append(kids, <<>>)
        /\ UNCHANGED <<focus, phase>>
WalkEnd == /\ phase = "kids" /\ Random /\ Len(kids) = MaxSteps
           /\ LET depth == Len(s.stack) - 1
                  tail == <<Open("Entry")>> \o Str("custom", "p16") \o Str("Notes", "p65") \o <<Close>>
                  root == <<Open("Root"), Open("Group"), Leaf("UUID", "any")>> \o tail \o <<Close, Close, Close>>
              IN s' = ReadAll(s, IF Had("Root") THEN
                                     (IF Len(s.stack) >= 4 /\ s.stack[3].ctx = "Root" THEN Closes(depth - 3) \o tail \o <<Close, Close, Close>>
                                      ELSE IF Top(s).groups = <<>> /\ Len(s.stack) = 3 /\ s.stack[3].ctx = "Root"
                                           THEN <<Open("Group")>> \o tail \o <<Close, Close, Close>>
                                      ELSE Closes(depth))
                                 ELSE Closes(depth - 1) \o root)
           /\ phase' = "done" /\ UNCHANGED <<focus, kids>>

Next == Kid \/ Finish \/ Walk \/ WalkEnd
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == phase = "done"
Model == s.stack[1]
\* The document is complete and has one root group.
Balanced == Done => Len(s.stack) = 1
HasRoot == Done /\ ~s.err => Len(Model.groups) = 1
\* The key stream is used without gap or overlap, in document order.
Stream == \A i \in 1..(Len(s.out) - 1) :
            s.out[i + 1].at = s.out[i].at + (IF s.out[i].op = "leaf" /\ IsProt(s.out[i].class) THEN LenOf(s.out[i].class) ELSE 0)
\* Every known group and entry below the root knows the group around it.
RECURSIVE ParentsOk(_)
ParentsOk(g) == LET u == IF "UUID" \in DOMAIN g.f THEN <<g.f["UUID"]>> ELSE <<>>
                IN /\ \A i \in 1..Len(g.entries) : g.entries[i].parent = u
                   /\ \A i \in 1..Len(g.groups) : g.groups[i].parent = u /\ ParentsOk(g.groups[i])
Parents == Done /\ ~s.err => ParentsOk(Model.groups[1])

Emit == Done => PrintT(ToJson([events |-> s.out, err |-> s.err, loose |-> s.loose,
                               model |-> [f |-> Model.f, maps |-> Model.maps, root |-> Model.groups]]))
=============================================================================
