------------------------------- MODULE KeyFile -------------------------------
(***************************************************************************)
(* Key files: what a file is read as, and what is written.                 *)
(*                                                                         *)
(* A file is either plain, [len, what, at, odd]: len bytes of the kind     *)
(* what, of which the one at `at` (0: none) is replaced by one of kind     *)
(* odd; or an XML document, [root, kids, flaw]: the children of the root   *)
(* element, and what keeps it from being well-formed; len is then the      *)
(* number of bytes of key data in it.                                      *)
(*                                                                         *)
(* A behaviour opens a file, saves what was read, and opens that; or makes *)
(* a key, saves it and opens it.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxKids,  \* children of the root element
          Part      \* "plain", "xml", "made"

Lengths == {0, 1, 2, 16, 31, 32, 33, 34, 44, 63, 64, 65, 66, 127, 128, 4096}
Kinds == {"random", "zero", "high", "lower hex", "upper hex", "mixed hex", "digits", "base64", "text", "xml", "space", "newline"}
Hexadecimal == {"lower hex", "upper hex", "mixed hex", "digits"}
NotHex == {"g", "G", "space", "newline", "nul", "plus", "minus", "x", "colon", "at", "grave", "slash", "high", "two bytes", "dot"}

Plain(len, what, at, odd) == [plain |-> TRUE, len |-> len, what |-> what, at |-> at, odd |-> odd, root |-> "", kids |-> <<>>, flaw |-> ""]
Xml(root, kids, flaw) == [plain |-> FALSE, len |-> 32, what |-> "", at |-> 0, odd |-> "", root |-> root, kids |-> kids, flaw |-> flaw]

\* Children of the root element: [el, what].
Metas == {"1.00", "other version", "no version", "unknown then 1.00", "1.00 then unknown", "unknown then other version", "empty element"}
KeyEls == {"data", "unknown then data", "data then unknown", "no data", "empty element", "bad base64", "nested unknown then data", "text around data"}
Others == {"unknown", "unknown nested", "text", "comment"}
Kid(el, what) == [el |-> el, what |-> what]
KidSet == {Kid("Meta", w) : w \in Metas} \cup {Kid("Key", w) : w \in KeyEls} \cup {Kid("other", w) : w \in Others}
Count(kids, el) == Cardinality({i \in 1..Len(kids) : kids[i].el = el})
RECURSIVE Docs(_)
Docs(n) == IF n = 0 THEN {<<>>}
           ELSE LET S == Docs(n - 1)
                IN S \cup {x \in {Append(s, k) : s \in {t \in S : Len(t) = n - 1}, k \in KidSet} : Count(x, "Meta") <= 1 /\ Count(x, "Key") <= 1}
Flaws == {"none", "cut in the start tag", "cut in the content", "cut before the last tag", "wrong end tag", "two roots", "no root", "text before", "text after", "bare ampersand", "attribute twice", "no quotes"}

-----------------------------------------------------------------------------
\* Reading. The result is [type, len] with the length of the key, or type "error".
Bad == [type |-> "error", len |-> 0]
IsHex(f) == f.what \in Hexadecimal /\ f.at = 0
MetaOk(w) == w \in {"1.00", "no version", "unknown then 1.00", "1.00 then unknown", "empty element"}
KeyOk(w) == w \in {"data", "unknown then data", "data then unknown", "nested unknown then data", "text around data"}
ReadXml(f) ==
  IF /\ f.flaw = "none" /\ f.root = "KeyFile"
     /\ \A i \in 1..Len(f.kids) : (f.kids[i].el = "Meta" => MetaOk(f.kids[i].what)) /\ (f.kids[i].el = "Key" => KeyOk(f.kids[i].what))
     /\ Count(f.kids, "Key") = 1
  THEN [type |-> "xml", len |-> f.len] ELSE Bad
Read(f) == IF f.plain
           THEN CASE f.len = 32 -> [type |-> "binary", len |-> 32]
                  [] f.len = 64 /\ IsHex(f) -> [type |-> "hex", len |-> 32]
                  [] OTHER -> Bad
           ELSE ReadXml(f)

\* Writing.
Format(t) == CASE t \in {"new ", "new xml"} -> "xml" [] t = "new binary" -> "binary" [] t = "new hex" -> "hex" [] OTHER -> t
Written(k) == CASE Format(k.type) = "binary" -> Plain(k.len, "random", 0, "")
                [] Format(k.type) = "hex" -> Plain(2 * k.len, "lower hex", 0, "")
                [] OTHER -> [Xml("KeyFile", <<Kid("Meta", "1.00"), Kid("Key", "data")>>, "none") EXCEPT !.len = k.len]

VARIABLES file, key, step, written, again
vars == <<file, key, step, written, again>>
\* In "made" the key is not read but made: of a type and a length.
KeyLengths == {1, 2, 3, 16, 31, 32, 33, 47, 48, 63, 64, 65, 100, 1000}
Nothing == Plain(0, "random", 0, "")
Init == /\ step = 0 /\ written = Nothing /\ again = Bad
        /\ \/ Part = "plain" /\ key = Bad /\
              (\/ file \in {Plain(n, w, 0, "") : n \in Lengths, w \in Kinds}
               \/ file \in {Plain(64, w, i, o) : w \in {"lower hex", "mixed hex"}, i \in 1..64, o \in NotHex}
               \* as an editor or a shell may leave them
               \/ file \in {x \in {Plain(n, w, i, o) : n \in {33, 34, 65, 66, 67}, w \in {"lower hex", "upper hex", "random"}, i \in {1, 2, 33, 65, 66}, o \in {"newline", "nul", "space", "two bytes"}} : x.at <= x.len}
               \/ file \in {Plain(32, w, i, o) : w \in {"lower hex", "random"}, i \in {1, 2, 16, 31, 32}, o \in NotHex})
           \/ Part = "xml" /\ key = Bad /\
              (\/ file \in {Xml("KeyFile", d, "none") : d \in Docs(MaxKids)}
               \/ file \in {[Xml("KeyFile", <<Kid("Meta", "1.00"), Kid("Key", "data")>>, "none") EXCEPT !.len = n] : n \in KeyLengths}
               \/ file \in {Xml("other", d, "none") : d \in Docs(2)}
               \/ file \in {Xml("KeyFile", d, fl) : d \in {<<Kid("Meta", "1.00"), Kid("Key", "data")>>, <<Kid("Key", "data")>>,
                          <<Kid("other", "unknown"), Kid("Key", "data then unknown"), Kid("Meta", "1.00")>>}, fl \in Flaws})
           \/ Part = "made" /\ file = Nothing /\ key \in {[type |-> "xml", len |-> n] : n \in KeyLengths} \cup {[type |-> t, len |-> 32] : t \in {"binary", "hex"}}
                \cup {[type |-> "new " \o t, len |-> 32] : t \in {"", "binary", "hex", "xml"}}
Open == step = 0 /\ step' = 1 /\ UNCHANGED <<file, written, again>> /\ key' = IF Part = "made" THEN key ELSE Read(file)
Save == step = 1 /\ key.type # "error" /\ step' = 2 /\ written' = Written(key) /\ UNCHANGED <<file, key, again>>
Reopen == step = 2 /\ step' = 3 /\ again' = Read(written) /\ UNCHANGED <<file, key, written>>
Next == Open \/ Save \/ Reopen
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == step = 3 \/ (step = 1 /\ key.type = "error")
\* The key and the format survive saving and opening.
Survives == step = 3 => again = [type |-> Format(key.type), len |-> key.len]
\* Where the children stand makes no difference, nor do unknown ones.
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Places == (Done /\ Part = "xml") =>
            /\ \A i \in 1..(Len(file.kids) - 1) : Read([file EXCEPT !.kids = Swap(@, i)]) = key
            /\ \A i \in 1..Len(file.kids) : file.kids[i].el = "other" => Read([file EXCEPT !.kids = Without(@, i)]) = key
\* A key that was read has a length, and is read from one of the three formats.
Sound == (Done /\ Part # "made") => (key.type = "error" <=> key.len = 0) /\ (key.type \in {"binary", "hex"} => key.len = 32)
\* A file is a key only through its length, its digits, or a Key element.
Needs == (Done /\ Part = "plain" /\ key.type # "error") => file.len \in {32, 64}
Emit == Done => PrintT(ToJson([file |-> file, key |-> key, part |-> Part, written |-> written, again |-> again]))
=============================================================================
