------------------------------ MODULE Malformed ------------------------------
(***************************************************************************)
(* Readers of input that nobody wrote on purpose: elements where they do   *)
(* not belong, values that are none, blocks that are longer than what is   *)
(* left, nesting without end. A reader takes one token after the other. It *)
(* may reject any of them, and has to reject some; what it must do is      *)
(* answer. It answers when there is nothing left, each step takes          *)
(* something away, and the number of calls inside each other has a limit.  *)
(*                                                                         *)
(* Layers: "xml" and "nest", elements in a document; "value", the content  *)
(* of an element; "blocks", the payload; "packed", compressed data and     *)
(* padding; "header"; "byte", one place in a document, key file or         *)
(* compressed data; "raw", files from nowhere. Everything inside the       *)
(* encryption is encrypted correctly.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Layer,
          Max,       \* tokens, or places
          Rich       \* how many of the tokens, from the first, are of all kinds
VARIABLES case,      \* what does not change
          toks,      \* what was written
          open,      \* elements that are open, outermost first
          calls,     \* reader calls inside each other
          left,      \* of what is read
          status     \* "reading", "error", "any"
vars == <<case, toks, open, calls, left, status>>

-----------------------------------------------------------------------------
(* Documents *)
Way == [File |-> <<>>,
        KeePassFile |-> <<"KeePassFile">>,
        Meta |-> <<"KeePassFile", "Meta">>,
        MemoryProtection |-> <<"KeePassFile", "Meta", "MemoryProtection">>,
        Binaries |-> <<"KeePassFile", "Meta", "Binaries">>,
        CustomData |-> <<"KeePassFile", "Meta", "CustomData">>,
        Item |-> <<"KeePassFile", "Meta", "CustomData", "Item">>,
        CustomIcons |-> <<"KeePassFile", "Meta", "CustomIcons">>,
        Icon |-> <<"KeePassFile", "Meta", "CustomIcons", "Icon">>,
        Root |-> <<"KeePassFile", "Root">>,
        Group |-> <<"KeePassFile", "Root", "Group">>,
        Times |-> <<"KeePassFile", "Root", "Group", "Entry", "Times">>,
        Entry |-> <<"KeePassFile", "Root", "Group", "Entry">>,
        AutoType |-> <<"KeePassFile", "Root", "Group", "Entry", "AutoType">>,
        Association |-> <<"KeePassFile", "Root", "Group", "Entry", "AutoType", "Association">>,
        String |-> <<"KeePassFile", "Root", "Group", "Entry", "String">>,
        Binary |-> <<"KeePassFile", "Root", "Group", "Entry", "Binary">>,
        History |-> <<"KeePassFile", "Root", "Group", "Entry", "History">>,
        HistoryEntry |-> <<"KeePassFile", "Root", "Group", "Entry", "History", "Entry">>,
        Unknown |-> <<"KeePassFile", "Root", "Group", "Unknown">>,
        KeyFile |-> <<>>,
        KeyRoot |-> <<"KeyFile">>,
        KeyMeta |-> <<"KeyFile", "Meta">>,
        KeyKey |-> <<"KeyFile", "Key">>]
IsKeyFile(ctx) == ctx \in {"KeyFile", "KeyRoot", "KeyMeta", "KeyKey"}
Leaves == [File |-> {}, KeePassFile |-> {}, Root |-> {}, CustomData |-> {}, CustomIcons |-> {}, History |-> {}, Unknown |-> {"Value"},
  Meta |-> {"Generator", "HeaderHash", "DatabaseName", "DatabaseNameChanged", "DatabaseDescription", "DatabaseDescriptionChanged", "DefaultUserName",
            "DefaultUserNameChanged", "MaintenanceHistoryDays", "Color", "MasterKeyChanged", "MasterKeyChangeRec", "MasterKeyChangeForce",
            "RecycleBinEnabled", "RecycleBinUUID", "RecycleBinChanged", "EntryTemplatesGroup", "EntryTemplatesGroupChanged",
            "HistoryMaxItems", "HistoryMaxSize", "LastSelectedGroup", "LastTopVisibleGroup"},
  MemoryProtection |-> {"ProtectNotes", "ProtectPassword", "ProtectTitle", "ProtectURL", "ProtectUserName"},
  Binaries |-> {"Binary"}, Item |-> {"Key", "Value"}, Icon |-> {"UUID", "Data"},
  Group |-> {"UUID", "Name", "Notes", "IconID", "CustomIconUUID", "IsExpanded", "DefaultAutoTypeSequence", "EnableAutoType", "EnableSearching", "LastTopVisibleEntry"},
  Times |-> {"CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "Expires", "UsageCount", "LocationChanged"},
  Entry |-> {"UUID", "IconID", "CustomIconUUID", "ForegroundColor", "BackgroundColor", "OverrideURL", "Tags"},
  AutoType |-> {"Enabled", "DataTransferObfuscation", "DefaultSequence"},
  Association |-> {"Window", "KeystrokeSequence"}, String |-> {"Key", "Value"}, Binary |-> {"Key", "Value"},
  HistoryEntry |-> {"UUID", "IconID", "CustomIconUUID", "ForegroundColor", "BackgroundColor", "OverrideURL", "Tags"},
  KeyFile |-> {}, KeyRoot |-> {}, KeyMeta |-> {"Version"}, KeyKey |-> {"Data"}]
Boxes == [File |-> {"KeePassFile"}, KeePassFile |-> {"Meta", "Root"}, Root |-> {"Group"}, Meta |-> {"MemoryProtection", "Binaries", "CustomData", "CustomIcons"},
  MemoryProtection |-> {}, Binaries |-> {}, CustomData |-> {"Item"}, Item |-> {}, CustomIcons |-> {"Icon"}, Icon |-> {},
  Group |-> {"Group", "Entry", "Times"}, Times |-> {}, Entry |-> {"AutoType", "Binary", "History", "String", "Times"}, AutoType |-> {"Association"},
  Association |-> {}, String |-> {}, Binary |-> {}, History |-> {"Entry"}, HistoryEntry |-> {"AutoType", "Binary", "History", "String", "Times"},
  Unknown |-> {"Unknown"}, KeyFile |-> {"KeyFile"}, KeyRoot |-> {"Meta", "Key"}, KeyMeta |-> {}, KeyKey |-> {}]
Contexts == DOMAIN Way
AllNames == UNION {Leaves[c] \cup Boxes[c] : c \in Contexts} \cup {"Unknown"}
Here(ctx) == Leaves[ctx] \cup Boxes[ctx]

\* Tokens: [op, name]. "leaf" is a whole element with text.
T(op, name) == [op |-> op, name |-> name]
Marks == {"text", "space", "cdata", "comment", "pi", "entity", "amp", "less", "doctype", "declaration", "nul", "high", "half tag", "two attributes",
          "no quotes", "colon", "namespace", "long name", "long text", "wrong close", "close too many", "bom"}
FewMarks == {"text", "cdata", "comment", "pi", "wrong close"}
All(ctx) == {T(op, n) : op \in {"open", "leaf", "leaf protected"}, n \in AllNames}
            \cup {T("mark", m) : m \in Marks} \cup {T("close", "")}
Few(ctx) == {T(op, n) : op \in {"open", "empty"}, n \in Here(ctx) \cup {"Unknown", "KeePassFile"} \cup (IF Way[ctx] = <<>> THEN {} ELSE {Way[ctx][Len(Way[ctx])]})}
            \cup {T("leaf", n) : n \in Leaves[ctx]} \cup {T("mark", m) : m \in FewMarks} \cup {T("close", "")}
\* Of the leaves of a context a few, where all of them are too many.
Fewer(ctx) == {t \in Few(ctx) : t.op = "close" \/ t.op = "mark" \/ t.name \in {"Unknown", "Key", "Value", "UUID", "Group", "Entry", "Times", "Data", "Version",
                 "DatabaseName", "Binary", "Generator", "ExpiryTime", "Enabled", "Window", "Item", "Icon", "Meta", "Root", "KeePassFile", "History", "String"}}
AllOf == [c \in Contexts |-> All(c)]
FewerOf == [c \in Contexts |-> Fewer(c)]

Illegal == {"wrong close", "close too many", "nul", "half tag", "two attributes", "no quotes", "less"}
Ill(t) == t.op = "mark" /\ t.name \in Illegal
Opens(t) == t.op \in {"open", "open protected"}
Pop(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
\* Groups are read by calls inside each other, and so at most Limit deep.
Limit == 4
Give(t) == /\ Layer = "xml" /\ status = "reading" /\ left > 0
           /\ toks' = Append(toks, t) /\ left' = left - 1 /\ UNCHANGED case
           /\ open' = IF Opens(t) THEN Append(open, t.name) ELSE IF t.op = "close" THEN Pop(open) ELSE open
           /\ calls' = IF Opens(t) /\ calls < Limit THEN calls + 1 ELSE IF t.op = "close" /\ calls > 0 THEN calls - 1 ELSE calls
           \* there is no more to read after an error, but the rest is written
           /\ status' = IF Ill(t) \/ (t.op = "close" /\ open = <<>>) THEN "error" ELSE "reading"
Ends == IF Rich = 0 THEN {"closed", "cut"} ELSE {"closed"}
End == /\ Layer = "xml" /\ (left = 0 \/ status = "error") /\ case.end = "" /\ toks # <<>>
       /\ \E e \in Ends : case' = [case EXCEPT !.end = e]
       /\ status' = IF status = "error" \/ (case'.end = "cut" /\ open # <<>>) THEN "error" ELSE "any"
       /\ UNCHANGED <<toks, open, calls, left>>
\* Fewer tokens are written as well.
Stop == Layer = "xml" /\ left > 0 /\ status = "reading" /\ toks # <<>> /\ left' = 0 /\ UNCHANGED <<case, toks, open, calls, status>>
Tokens == IF Len(toks) < Rich THEN AllOf[case.ctx] ELSE FewerOf[case.ctx]

-----------------------------------------------------------------------------
(* Blocks: [n, hash, size]. What is left is counted in pieces; a block takes *)
(* its head and its data.                                                    *)
Numbers == {"next", "zero", "skip", "huge"}
Hashes == {"right", "wrong", "zero"}
Sizes == {"zero", "some", "more than left", "2^31-1", "2^31", "2^32-1", "rest"}
BlockTokens == {[n |-> n, hash |-> h, size |-> s] : n \in Numbers, h \in Hashes, s \in Sizes}
Block(b) == /\ Layer = "blocks" /\ status = "reading" /\ left > 0
            /\ toks' = Append(toks, b) /\ left' = left - 1 /\ UNCHANGED <<case, open, calls>>
            /\ status' = IF b.n # "next" \/ b.hash = "wrong" \/ b.size \in {"more than left", "2^31-1", "2^31", "2^32-1"} THEN "error"
                         ELSE IF b.hash = "zero" THEN (IF b.size = "zero" THEN "any" ELSE "error") ELSE "reading"
\* After the last one: nothing, part of a head, or junk.
After == {"nothing", "part of a head", "junk", "final"}
EndBlocks == /\ Layer = "blocks" /\ case.end = "" /\ (status # "reading" \/ left = 0)
             /\ \E e \in After : case' = [case EXCEPT !.end = e]
             /\ status' = IF status = "reading" /\ case'.end # "final" THEN "error" ELSE IF status = "reading" THEN "any" ELSE status
             /\ UNCHANGED <<toks, open, calls, left>>

-----------------------------------------------------------------------------
(* Layers of single cases. *)
Depths == {1, 2, 3, 10, 50, 199, 200, 201, 202, 500, 2000, 8000, 30000}
Shapes == {"closed", "open", "empty inside", "text inside", "siblings"}
Wheres == Contexts
NestNames(ctx) == {"Unknown", "Group", "Entry", "History", "Key", "Value", "String"} \cup Boxes[ctx] \cup (IF Way[ctx] = <<>> THEN {} ELSE {Way[ctx][Len(Way[ctx])]})
Single(c) == c @@ [ctx |-> "", name |-> "", what |-> "", at |-> 0, end |-> "", n |-> 0]
Values == {"nothing", "space", "text", "zero", "minus", "plus", "2^31", "-2^31", "-2^31-1", "2^63", "2^64", "many digits", "fraction", "exponent", "arabic digits", "hex",
           "true", "TRUE", "null", "nul", "one base64", "two base64", "three base64", "base64 over", "padding only", "padding inside", "base64 url", "bytes 1",
           "bytes 15", "bytes 16", "bytes 17", "bytes 31", "bytes 64", "bytes 70000", "not utf8", "gzip", "gzip cut", "gzip wrong", "gzip of nothing", "gzip junk",
           "date", "month 13", "day 30", "hour 25", "second 60", "second 61", "year 0", "year -1", "year 10000", "year 262143", "year 999999", "no zone", "zone", "wide zone",
           "long fraction", "date and junk", "color", "color short", "color long", "color sign", "color multi", "color multi 2", "color multi 3", "high", "emoji", "entity nul", "entity huge", "entity unknown", "cdata", "element", "elements"} \cup
          \* a value with one character that is several bytes long, in place of one character or of as many bytes
          {"multi " \o k \o " " \o ToString(i) : k \in {"color", "date", "uuid", "number", "true"}, i \in 0..7}
Attrs == {"none", "Protected", "Compressed", "both", "Ref", "wrong", "ProtectInMemory", "ID"}
Packs == {"cipher length", "pad byte", "pad run", "gzip cut", "gzip flip", "gzip member", "gzip end", "deflate", "gzip header", "gzip length", "empty", "start only", "text", "xml cut", "not utf8", "utf16", "random"}
HeaderSizes == {0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 255, 256, 65535}
HeaderWhats == {"all there", "cut in data", "cut in size", "cut after id", "first", "twice"}
ByteWhats == {"less", "greater", "amp", "quote", "nul", "high", "two bytes", "close", "open", "comment", "cdata", "remove", "cut", "repeat", "remove 10", "random"}
ByteWheres == {"document", "gzip", "keyfile", "keyfile 2"}
Raws == {"random", "signature", "version", "kdb1", "header", "cipher", "zero", "high", "text", "tokens"}

Cases ==
  \/ Layer = "xml" /\ \E c \in Contexts : case = Single([ctx |-> c])
  \/ Layer = "blocks" /\ \E g \in {"gzip", "plain"} : case = Single([what |-> g])
  \/ Layer = "nest" /\ \E c \in Wheres, n \in AllNames \cup {"Unknown"}, d \in Depths, s \in Shapes : n \in NestNames(c) /\ d <= Max
        /\ (d > 2000 => s \in {"closed", "open"} /\ (n \in {"Unknown", "Group"} \/ (Way[c] # <<>> /\ n = Way[c][Len(Way[c])]))) /\ case = Single([ctx |-> c, name |-> n, n |-> d, what |-> s])
  \/ Layer = "value" /\ \E c \in Contexts, v \in Values, a \in Attrs : \E n \in Leaves[c] : (a = "none" \/ n \in {"Value", "Binary", "Key", "DatabaseName", "UUID", "Unknown", "Data", "Notes"})
        /\ case = Single([ctx |-> c, name |-> n, what |-> v, end |-> a])
  \/ Layer = "packed" /\ \E p \in Packs, i \in 0..Max : case = Single([what |-> p, at |-> i])
  \/ Layer = "header" /\ \E i \in 0..255, s \in HeaderSizes, w \in HeaderWhats : (i <= 12 \/ i \in {64, 127, 128, 255} \/ w = "all there") /\ case = Single([at |-> i, n |-> s, what |-> w])
  \/ Layer = "byte" /\ \E w \in ByteWheres, h \in ByteWhats, i \in 0..Max : case = Single([ctx |-> w, what |-> h, at |-> i, n |-> Max])
  \/ Layer = "raw" /\ \E h \in Raws, i \in 0..Max : case = Single([what |-> h, at |-> i])
SingleCase == Layer \notin {"xml", "blocks"}
Answer == SingleCase /\ status = "reading" /\ status' = "any" /\ left' = 0 /\ UNCHANGED <<case, toks, open, calls>>

Init == Cases /\ toks = <<>> /\ left = (IF SingleCase THEN 1 ELSE Max) /\ status = "reading" /\ calls = 0
        /\ open = IF Layer = "xml" THEN Way[case.ctx] ELSE <<>>
Next == (Layer = "xml" /\ \E t \in Tokens : Give(t)) \/ End \/ Stop \/ (\E b \in BlockTokens : Block(b)) \/ EndBlocks \/ Answer
\* One token at random, in long walks.
NextXml == (left > 0 /\ \E t \in {RandomElement(IF left % 17 = 0 THEN Tokens ELSE {x \in Tokens : ~Ill(x) /\ (x.op = "close" => open # <<>>)})} : Give(t)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Walk == Init /\ [][NextXml]_vars

Done == IF Layer \in {"xml", "blocks"} THEN case.end # "" ELSE status # "reading"
\* The reader answers, after at most as many steps as there are tokens.
Answers == <>Done
Fits == Len(toks) <= Max /\ calls <= Limit
Open == Done => (status \in {"error", "any"})
Emit == Done => PrintT(ToJson([layer |-> Layer, case |-> case, toks |-> toks, want |-> status]))
=============================================================================
